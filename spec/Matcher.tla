------------------------------- MODULE Matcher -------------------------------
(* Matching the keypoints of one frame (rows: bs) with those of the next   *)
(* (columns: as), given who lies in whose search windows and how far their *)
(* descriptors are apart.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES in,      \* [bits, d: distance of b and a, near: b -> as in the small window, far: in the large one only, ok: bs with a prediction]
          match,   \* a -> b: the matches
          losers,  \* bs that chose an a which another b got
          round    \* 0: nobody has chosen; 1..: rounds among the losers
Bs == DOMAIN in.d
MaxRounds == 3

\* Limits on distances: more than 80% of the bits agree; more than 85% for losers.
Relaxed(x) == 5 * (in.bits - x) > 4 * in.bits
Strict(x) == 20 * (in.bits - x) > 17 * in.bits
Closest(b, as) == {a \in as : \A c \in as : in.d[b][a] <= in.d[b][c]}

\* The large window is searched if the small one has no keypoint within the limit.
Examined(b) == IF \E a \in in.near[b] : Relaxed(in.d[b][a]) THEN in.near[b] ELSE in.near[b] \cup in.far[b]
\* The best one has to be clearly better than the second best.
Clear(b, a) ==
  \/ Examined(b) = {a}
  \/ LET o == CHOOSE o \in Closest(b, Examined(b) \ {a}) : TRUE
         second == in.d[b][o] IN
     second = 0 \/ 5 * in.d[b][a] < 4 * second
Firsts(b) == {a \in Closest(b, Examined(b)) : b \in in.ok /\ Relaxed(in.d[b][a]) /\ Clear(b, a)}
Seconds(b) == Closest(b, {a \in Examined(b) \ DOMAIN match : Strict(in.d[b][a])})

\* All of bs choose; each chosen a gets the closest of those that chose it.  At ties anything may happen.
Choices(bs, F(_)) == {c \in [{b \in bs : F(b) # {}} -> UNION {F(b) : b \in bs}] : \A b \in DOMAIN c : c[b] \in F(b)}
Wanted(c) == {c[b] : b \in DOMAIN c}
Suitors(c, a) == {b \in DOMAIN c : c[b] = a}
Best(c, a) == {b \in Suitors(c, a) : \A o \in Suitors(c, a) : in.d[b][a] <= in.d[o][a]}
Outcomes(c) == {w \in [Wanted(c) -> DOMAIN c] : \A a \in Wanted(c) : w[a] \in Best(c, a)}
Settle(bs, F(_)) ==
  \E c \in Choices(bs, F) : \E w \in Outcomes(c) :
    /\ match' = [a \in DOMAIN match \cup Wanted(c) |-> IF a \in Wanted(c) THEN w[a] ELSE match[a]]
    /\ losers' = (IF round = 0 THEN DOMAIN c ELSE losers) \ {w[a] : a \in Wanted(c)}
Turn == /\ round <= MaxRounds /\ round' = round + 1 /\ UNCHANGED in
        /\ IF round = 0 THEN Settle(Bs, Firsts) ELSE Settle(losers, Seconds)
Finished == round = MaxRounds + 1

-----------------------------------------------------------------------------
OneToOne == \A a, c \in DOMAIN match : a # c => match[a] # match[c]
Limits == \A a \in DOMAIN match : LET b == match[a] IN
  b \in in.ok /\ a \in in.near[b] \cup in.far[b] /\ Relaxed(in.d[b][a])
  /\ (a \in in.far[b] => \A o \in in.near[b] : ~Relaxed(in.d[b][o]))
\* Nobody whose first choice an a was is closer to it than who got it.
Competition == round > 0 => \A b \in Bs : \A a \in Firsts(b) :
  \E o \in Firsts(b) : o \in DOMAIN match /\ (match[o] = b \/ in.d[match[o]][o] <= in.d[b][o])
\* Losers are without a match and match only what is free.
LosersFree == losers \cap {match[a] : a \in DOMAIN match} = {}
\* A loser is left without a match only if there was a better one for everything it could have got, or after all rounds.
Settled == Finished => \A b \in losers : Seconds(b) = {} \/ Cardinality(DOMAIN match) >= MaxRounds
Kept == [][\A a \in DOMAIN match : a \in DOMAIN match' /\ match'[a] = match[a]]_<<in, match, losers, round>>
=============================================================================
