----------------------------- MODULE Descriptors ----------------------------
(* Binary descriptors: byte strings addressed bit by bit, bit b of a       *)
(* descriptor being bit b mod 8 (from the least significant) of its byte   *)
(* b div 8; and references to them, which own their bytes or point to      *)
(* somebody else's buffer.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise

VARIABLES ext,   \* the buffers outside: a sequence of byte strings
          ref    \* the references: [kind: "none", "own" or "ext", b: the bytes if owned, at: the buffer if not]

vars == <<ext, ref>>
Byte == 0..255
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
BitOf(x, i) == (x \div Pow2[i + 1]) % 2
Bit(d, b) == BitOf(d[(b \div 8) + 1], b % 8)
HasBit(d, b) == b < 8 * Len(d)
\* Constant tables.
Ones == [x \in Byte |-> BitOf(x, 0) + BitOf(x, 1) + BitOf(x, 2) + BitOf(x, 3) + BitOf(x, 4) + BitOf(x, 5) + BitOf(x, 6) + BitOf(x, 7)]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

SetBitIn(d, b) == [d EXCEPT ![(b \div 8) + 1] = IF Bit(d, b) = 1 THEN @ ELSE @ + Pow2[(b % 8) + 1]]
FlipBitIn(d, b) == [d EXCEPT ![(b \div 8) + 1] = IF Bit(d, b) = 1 THEN @ - Pow2[(b % 8) + 1] ELSE @ + Pow2[(b % 8) + 1]]
Zero(n) == [i \in 1..n |-> 0]
Differing(x, y) == Sum([i \in DOMAIN x |-> Ones[x[i] ^^ y[i]]])

\* For a sequence ds of descriptors of n bytes: how many have bit b; the mean has the bits that more than half
\* (rounded down) of them have.
Votes(ds, b) == Sum([k \in DOMAIN ds |-> Bit(ds[k], b)])
MeanByte(ds, i) == LET D(j) == IF Votes(ds, 8 * (i - 1) + j) > Len(ds) \div 2 THEN Pow2[j + 1] ELSE 0
                   IN D(0) + D(1) + D(2) + D(3) + D(4) + D(5) + D(6) + D(7)
Mean(ds, n) == [i \in 1..n |-> MeanByte(ds, i)]
DistSum(ds, k) == Sum([m \in DOMAIN ds |-> Differing(ds[k], ds[m])])
IsClosest(ds, k) == \A m \in DOMAIN ds : DistSum(ds, k) <= DistSum(ds, m)
\* Deviations, multiplied by the number of descriptors (absolute) and its square (standard).
AbsDevTimesN(ds, n) == IF Len(ds) < 2 THEN 0 ELSE LET m == Mean(ds, n) IN Sum([k \in DOMAIN ds |-> Differing(ds[k], m)])
VarTimesN2(ds, n) == IF Len(ds) < 2 THEN 0
                     ELSE Sum([b1 \in 1..(8 * n) |-> Votes(ds, b1 - 1) * (Len(ds) - Votes(ds, b1 - 1))])
\* The squared distance of d from the mean of ds, times the square of their number.
ToMeanTimesN2(ds, d) == LET N == Len(ds) IN
  Sum([b1 \in 1..(8 * Len(d)) |-> LET x == N * Bit(d, b1 - 1) - Votes(ds, b1 - 1) IN x * x])

(* References. *)
None == [kind |-> "none", b |-> <<>>, at |-> 0]
Own(d) == [kind |-> "own", b |-> d, at |-> 0]
External(k) == [kind |-> "ext", b |-> <<>>, at |-> k]
HasData(r) == r.kind # "none"
Bytes(r) == IF r.kind = "ext" THEN ext[r.at] ELSE r.b
\* Writing through a reference changes what it points to, for all that point there.
Put(i, d) == IF ref[i].kind = "ext" THEN ext' = [ext EXCEPT ![ref[i].at] = d] /\ UNCHANGED ref
             ELSE ref' = [ref EXCEPT ![i].b = d] /\ UNCHANGED ext
Bind(i, r) == ref' = [ref EXCEPT ![i] = r] /\ UNCHANGED ext
\* A copy owns a copy of the bytes if either side owned any, and otherwise points to the same bytes.
CopyOf(r) == IF r.kind = "own" THEN Own(r.b) ELSE r
AssignFrom(i, k) == IF i = k THEN UNCHANGED vars
                    ELSE Bind(i, IF ref[i].kind = "own" \/ ref[k].kind = "own" THEN Own(Bytes(ref[k])) ELSE ref[k])
Equal(r, s) == HasData(r) = HasData(s) /\ Bytes(r) = Bytes(s)

TypeOK == /\ \A i \in DOMAIN ref : ref[i].kind \in {"none", "own", "ext"} /\ (ref[i].kind = "ext" => ref[i].at \in DOMAIN ext)
          /\ \A k \in DOMAIN ext : \A i \in DOMAIN ext[k] : ext[k][i] \in Byte
=============================================================================
