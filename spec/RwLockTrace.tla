---------------------------- MODULE RwLockTrace ----------------------------
(* Recorded executions of the real lock must be behaviours of RwLock.      *)
EXTENDS RwLock, TLC, Sequences, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

Ev == Traces[tid].ev
E == Ev[l]

TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1

Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid

TCall   == Step("c") /\ Call(E.t, E.o)
TReturn == /\ Step("r")
           /\ op[E.t] = E.o /\ stage[E.t] = "done"
           /\ E.o \in {"up", "iu"} => res[E.t] = E.v
           /\ Return(E.t)
\* The thread was seen blocking inside its call: the lock knows of the request.
TPark   == Step("p") /\ stage[E.t] = "waiting" /\ UNCHANGED vars
\* No thread can move: nothing may be grantable.
TQuiet  == Step("q") /\ (~Policy \/ Stuck) /\ UNCHANGED vars
\* Judging exclusion only: a lock that never gets anywhere excludes everybody.
TStall  == ~Policy /\ (Step("livelock") \/ Step("hang")) /\ UNCHANGED vars
TSilent == /\ l <= Len(Ev)
           /\ \E t \in Thread : Silent(t)
           /\ UNCHANGED <<tid, l>>

TraceNext == TCall \/ TReturn \/ TPark \/ TQuiet \/ TStall \/ TSilent
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
