---------------------------- MODULE SerialTrace ----------------------------
(* Recorded serializations of the real code must be steps of Serial.       *)
EXTENDS Serial, Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
TNext == \/ Step("write") /\ Write(E.ty, E.v, E.m)
         \/ Step("read") /\ Read(E.ty, E.m, E.ok, E.v)
TraceSpec == TraceInit /\ [][TNext]_<<known, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
