-------------------------- MODULE ContainersTrace ---------------------------
(* Recorded results of the real container helpers must be those of Containers. *)
EXTENDS Containers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ c = <<>>
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Seen == c' = E.now
Same == UNCHANGED c
\* Erasing needs distinct positions; some containers also need them in order, and know how long they are.
CanErase == ErasableFrom(c, AsSet(E.idx)) /\ E.count = Len(c)
SampleOk == E.same = TRUE /\ Sample(c, E.n, E.out)
KeepOk == KeepBest(E.n, E.desc, E.now, E.gone) /\ E.res = Len(E.now)
Keys == [i \in DOMAIN c |-> Key(c[i])]
SummaryOk == /\ E.ok = (c # <<>>)
             /\ E.ok => /\ E.mean = MeanTimes(Keys, Len(c)) /\ E.var = VarTimes(Keys, Len(c))
                        /\ IsMedianTwice(Keys, E.median)
\* Taking the median may rearrange the data but nothing else.
NestedOk == E.res = Sum(E.sizes)
Next ==
  \/ Step("new") /\ Seen
  \/ Step("erase") /\ E.ok = CanErase /\ (IF E.ok THEN Erase(AsSet(E.idx)) ELSE Same) /\ Seen
  \/ Step("keep") /\ TRUE = KeepOk /\ Seen
  \/ Step("draw") /\ E.ok = (E.n > 0) /\ (E.ok => SampleOk = TRUE) /\ Same /\ Seen
  \/ Step("summary") /\ TRUE = SummaryOk /\ TRUE = SameElements(E.now, c) /\ Seen
  \/ Step("nested") /\ TRUE = NestedOk /\ Same /\ Seen
  \/ Step("columns") /\ TRUE = (E.out = c) /\ Same /\ Seen
TraceSpec == TraceInit /\ [][Next]_<<c, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
