------------------------------- MODULE Stats --------------------------------
(* Timers and statistics.  A registry (0 timing, 1 statistics) maps tags to*)
(* handles; every handle has a sequence of samples.  Values and times are  *)
(* integers (multiples of a unit).                                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Window      \* length of the rolling window
Reg == {0, 1}
VARIABLES tags,    \* [Reg -> function from tags to handles]
          data,    \* [Reg -> function from handles to [g: tag, s: samples, t: times of the samples]]
          timer,   \* function from timer objects to [h, on, since]
          call     \* function from threads to operations in progress

vars == <<tags, data, timer, call>>
Init == tags = [r \in Reg |-> <<>>] /\ data = [r \in Reg |-> <<>>] /\ timer = <<>> /\ call = <<>>

Put(f, k, x) == [m \in (DOMAIN f) \cup {k} |-> IF m = k THEN x ELSE f[m]]
Drop(f, k) == [m \in (DOMAIN f) \ {k} |-> f[m]]
Empty(g) == [g |-> g, s |-> <<>>, t |-> <<>>]
Handles(r) == {tags[r][g] : g \in DOMAIN tags[r]}

\* Looking a tag up creates it, with a handle that was never another tag's, and without samples.
Handle(r, g, h) ==
  IF g \in DOMAIN tags[r] THEN h = tags[r][g] /\ UNCHANGED <<tags, data>>
  ELSE /\ IF h \in DOMAIN data[r] THEN data[r][h].g = g ELSE TRUE
       /\ tags' = [tags EXCEPT ![r] = Put(@, g, h)]
       /\ data' = [data EXCEPT ![r] = Put(@, h, Empty(g))]
Has(r, g) == g \in DOMAIN tags[r]
TagOf(r, h) == IF \E g \in DOMAIN tags[r] : tags[r][g] = h THEN CHOOSE g \in DOMAIN tags[r] : tags[r][g] = h ELSE ""
Sample(r, h, x, now) == /\ h \in DOMAIN data[r]
                        /\ data' = [data EXCEPT ![r][h] = [@ EXCEPT !.s = Append(@, x), !.t = Append(@, now)]]
                        /\ UNCHANGED tags
\* Handles obtained before are detached: what is recorded through them belongs to no tag any more.
Reset(r) == tags' = [tags EXCEPT ![r] = <<>>] /\ UNCHANGED data

\* Timers.
Make(i, h, on, now) == timer' = Put(timer, i, [h |-> h, on |-> on, since |-> now])
Start(i, now) == timer' = [timer EXCEPT ![i].on = TRUE, ![i].since = now]
Stop(i, now) == /\ timer' = [timer EXCEPT ![i].on = FALSE]
                /\ IF timer[i].on THEN Sample(0, timer[i].h, now - timer[i].since, now) ELSE UNCHANGED <<tags, data>>
Discard(i) == timer' = [timer EXCEPT ![i].on = FALSE]
Destroy(i, now) == /\ timer' = Drop(timer, i)
                   /\ IF timer[i].on THEN Sample(0, timer[i].h, now - timer[i].since, now) ELSE UNCHANGED <<tags, data>>

-----------------------------------------------------------------------------
\* Figures of a sequence of samples.
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
MinOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x <= s[i]
MaxOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x >= s[i]
LastOf(s, w) == IF Len(s) <= w THEN s ELSE SubSeq(s, Len(s) - w + 1, Len(s))
Deltas(t) == [i \in 1..(Len(t) - 1) |-> t[i + 1] - t[i]]
Abs(x) == IF x < 0 THEN -x ELSE x
\* m is k times the mean of s, rounded to an integer
IsMean(m, s, k) == IF s = <<>> THEN m = 0 ELSE 2 * Abs(m * Len(s) - k * SumOf(s)) <= Len(s) + 1
\* v is k times the (unbiased) variance of s, rounded to an integer; sums of squares about the first element
IsVar(v, s, k) ==
  IF Len(s) < 2 THEN v = 0
  ELSE LET n == Len(s)
           d == [i \in DOMAIN s |-> s[i] - s[1]]
           q == SumOf([i \in DOMAIN s |-> d[i] * d[i]])
       IN Abs(v * (n * (n - 1)) - k * (n * q - SumOf(d) * SumOf(d))) <= n * (n - 1)
=============================================================================
