---------------------------- MODULE MCContainers ----------------------------
EXTENDS Containers, TLC
CONSTANTS MaxLen, Keys
VARIABLE hist   \* the container before the last step, and what the step was
Starts == UNION {{[i \in 1..n |-> <<i, k[i]>>] : k \in [1..n -> Keys]} : n \in 0..MaxLen}
Init == c \in Starts /\ hist = <<"start", c>>
Perms(s) == {[i \in DOMAIN s |-> s[p[i]]] : p \in {q \in [DOMAIN s -> DOMAIN s] : Cardinality({q[i] : i \in DOMAIN s}) = Len(s)}}
Splits(s) == {<<SubSeq(q, 1, n), SubSeq(q, n + 1, Len(q))>> : q \in Perms(s), n \in 0..Len(s)}
Next ==
  \/ \E I \in SUBSET (0..(Len(c) - 1)) : Erase(I) /\ hist' = <<"erase", c, I>>
  \/ \E n \in 0..MaxLen, d \in BOOLEAN, ks \in Splits(c) :
       KeepBest(n, d, ks[1], ks[2]) /\ c' = ks[1] /\ hist' = <<"keep", c, n, d>>
Spec == Init /\ [][Next]_<<c, hist>>
\* Properties of the definitions: nothing is invented, order is kept, the best stay.
NoneInvented == AsSet(c) \subseteq AsSet(hist[2])
ErasedExactly == hist[1] = "erase" =>
  /\ Len(c) = Len(hist[2]) - Cardinality(hist[3])
  /\ \A i, j \in DOMAIN c : i < j =>
       \E a, b \in DOMAIN hist[2] : a < b /\ hist[2][a] = c[i] /\ hist[2][b] = c[j]
  /\ \A i \in hist[3] : hist[2][i + 1] \notin AsSet(c)
BestStay == hist[1] = "keep" =>
  /\ Len(c) = (IF hist[3] < Len(hist[2]) THEN hist[3] ELSE Len(hist[2]))
  /\ \A x \in AsSet(c), y \in AsSet(hist[2]) \ AsSet(c) : ~Before(y, x, hist[4])
\* The summaries are well defined.
MedianUnique == c # <<>> => LET ks == [i \in DOMAIN c |-> Key(c[i])] IN
  /\ Cardinality({m \in 0..12 : IsMedianTwice(ks, m)}) = 1
  /\ VarTimes(ks, Len(ks)) >= 0
=============================================================================
