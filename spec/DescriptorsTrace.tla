-------------------------- MODULE DescriptorsTrace --------------------------
(* Recorded operations on real descriptors must be those of Descriptors.   *)
EXTENDS Descriptors, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ ext = <<>> /\ ref = <<>>
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
\* Afterwards: the outside buffers, and for each reference whether it has data, its size and its bytes.
Seen == /\ E.ext = ext'
        /\ Len(E.refs) = Len(ref')
        /\ \A i \in DOMAIN E.refs :
             /\ E.refs[i][1] = HasData(ref'[i])
             /\ E.refs[i][2] = (IF ref'[i].kind = "ext" THEN ext'[ref'[i].at] ELSE ref'[i].b)
Same == UNCHANGED vars
Fits(i, b) == HasBit(Bytes(ref[i]), b)
RefOp(o, i) ==
  \/ o = "own" /\ Bind(i, Own(E.bytes))
  \/ o = "ext" /\ Bind(i, External(E.k))
  \/ o = "drop" /\ Bind(i, None)
  \/ o = "copy" /\ Bind(i, CopyOf(ref[E.k]))
  \/ o = "assign" /\ AssignFrom(i, E.k)
  \* new memory, unless it owned that many bytes already; E.bytes is what it was filled with then
  \/ o = "allocate" /\ E.kept = (ref[i].kind = "own" /\ Len(ref[i].b) = E.n) /\ (IF E.kept THEN Same ELSE Bind(i, Own(E.bytes)))
  \/ o = "set" /\ E.ok = Fits(i, E.b) /\ (IF E.ok THEN Put(i, SetBitIn(Bytes(ref[i]), E.b)) ELSE Same)
  \/ o = "flip" /\ E.ok = Fits(i, E.b) /\ (IF E.ok THEN Put(i, FlipBitIn(Bytes(ref[i]), E.b)) ELSE Same)
  \/ o = "get" /\ E.ok = Fits(i, E.b) /\ (E.ok => E.res = (Bit(Bytes(ref[i]), E.b) = 1)) /\ Same
  \/ o = "at" /\ E.ok = (E.b < Len(Bytes(ref[i]))) /\ (E.ok => E.res = Bytes(ref[i])[E.b + 1]) /\ Same
  \/ o = "zero" /\ Put(i, Zero(Len(Bytes(ref[i]))))
  \/ o = "random" /\ Put(i, E.bytes) /\ E.again = E.bytes /\ Len(E.bytes) = Len(Bytes(ref[i]))
  \/ o = "flipn" /\ E.ok = (E.n < 8 * Len(Bytes(ref[i]))) /\ (IF E.ok THEN Put(i, E.bytes) ELSE Same)
     /\ Len(E.bytes) = Len(Bytes(ref[i])) /\ TRUE = (E.ok => Differing(E.bytes, Bytes(ref[i])) = E.n)
  \/ o = "equal" /\ E.res = Equal(ref[i], ref[E.k]) /\ Same
  \/ o = "dist" /\ E.ok = (Len(Bytes(ref[i])) = Len(Bytes(ref[E.k])))
     /\ (E.ok => E.res = Differing(Bytes(ref[i]), Bytes(ref[E.k]))) /\ Same
  \/ o = "mean" /\ LET ds == [k \in DOMAIN E.of |-> Bytes(ref[E.of[k]])] IN
       IF ds = <<>> THEN E.ok /\ Same
       ELSE /\ E.ok = (Len(ds[1]) = Len(Bytes(ref[i])))
            /\ IF E.ok THEN Put(i, Mean(ds, Len(ds[1]))) ELSE Same
\* A whole matrix of descriptors, one per column.
BulkOk ==
  LET ds == E.ds IN LET n == E.rows IN
  /\ E.ok
  /\ E.mean = Mean(ds, n)
  /\ E.closest + 1 \in DOMAIN ds /\ IsClosest(ds, E.closest + 1)
  /\ E.absdev = AbsDevTimesN(ds, n)
  /\ E.votes = [b1 \in 1..(8 * n) |-> Votes(ds, b1 - 1)]
  /\ E.var = VarTimesN2(ds, n)
  /\ E.tomean = [k \in DOMAIN ds |-> ToMeanTimesN2(ds, ds[k])]
DistsOk == E.dists = [k \in DOMAIN E.ds |-> Differing(E.ds[1], E.ds[k])]
BitsOk == /\ E.ok = HasBit(E.d, E.b)
          /\ E.ok => /\ E.res = (Bit(E.d, E.b) = 1) /\ E.after = SetBitIn(E.d, E.b)
Next ==
  \/ Step("new") /\ ext' = E.ext /\ ref' = [i \in 1..E.n |-> None] /\ Seen
  \/ Step("ref") /\ RefOp(E.o, E.i) /\ Seen
  \/ Step("bulk") /\ TRUE = BulkOk /\ Same
  \/ Step("dists") /\ TRUE = DistsOk /\ Same
  \/ Step("bits") /\ TRUE = BitsOk /\ Same
TraceSpec == TraceInit /\ [][Next]_<<vars, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
