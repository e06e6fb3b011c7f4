----------------------------- MODULE Containers -----------------------------
(* Container helpers: a sequence of elements <<id, key>> with distinct ids *)
(* and the operations that erase from, select from, sample and summarise   *)
(* it.  Positions are numbered from 0, as in the program.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLE c      \* the container

AsSet(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(AsSet(s)) = Len(s)
Key(x) == x[2]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SameElements(s, t) == Len(s) = Len(t) /\ AsSet(s) = AsSet(t)       \* elements are distinct

\* What remains of s without the positions in I, in order.
RECURSIVE Without(_, _, _)
Without(s, I, i) == IF i > Len(s) THEN <<>>
                    ELSE (IF (i - 1) \in I THEN <<>> ELSE <<s[i]>>) \o Without(s, I, i + 1)
ErasableFrom(s, I) == \A i \in I : i < Len(s)
Erase(I) == ErasableFrom(c, I) /\ c' = Without(c, I, 1)

\* The n first elements under the ordering of keys (desc: greatest first), sorted; gone: the elements handed to
\* the removal action.
Before(x, y, desc) == IF desc THEN Key(x) > Key(y) ELSE Key(x) < Key(y)
KeepBest(n, desc, kept, gone) ==
  /\ SameElements(kept \o gone, c)
  /\ IF Len(c) <= n THEN kept = c
     ELSE /\ Len(kept) = n
          /\ \A i \in 1..(Len(kept) - 1) : ~Before(kept[i + 1], kept[i], desc)
          /\ \A i \in DOMAIN kept, j \in DOMAIN gone : ~Before(gone[j], kept[i], desc)

\* n distinct positions of the input.
Sample(s, n, out) == IF n >= Len(s) THEN out = s
                     ELSE Len(out) = n /\ Distinct(out) /\ AsSet(out) \subseteq AsSet(s)

\* Summaries, scaled to integers.
MeanTimes(s, n) == Sum(s)                                            \* n * mean
VarTimes(s, n) == n * Sum([i \in DOMAIN s |-> s[i] * s[i]]) - Sum(s) * Sum(s)   \* n^2 * variance
Smaller(s, x) == Cardinality({i \in DOMAIN s : s[i] < x})
AtMost(s, x) == Cardinality({i \in DOMAIN s : s[i] <= x})
\* x is the k-th smallest (k from 0)
IsRank(s, x, k) == Smaller(s, x) <= k /\ AtMost(s, x) > k
IsMedianTwice(s, m) ==
  IF Len(s) % 2 = 1 THEN \E i \in DOMAIN s : IsRank(s, s[i], Len(s) \div 2) /\ m = 2 * s[i]
  ELSE \E i, j \in DOMAIN s : IsRank(s, s[i], Len(s) \div 2) /\ IsRank(s, s[j], Len(s) \div 2 - 1) /\ m = s[i] + s[j]

TypeOK == Distinct([i \in DOMAIN c |-> c[i][1]])
=============================================================================
