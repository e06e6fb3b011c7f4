----------------------------- MODULE TracksTrace -----------------------------
EXTENDS Tracks, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
Empty == [kp |-> <<>>, has |-> FALSE, track |-> <<>>, full |-> 0, unc |-> <<>>]
None == [first |-> -1, ids |-> {}]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ frame = [f \in Frame |-> Empty] /\ issued = {} /\ given = [k \in {0, 1} |-> None]
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Seen == \A k \in DOMAIN E.frames : frame'[E.frames[k].f] = E.frames[k].v
Skip == UNCHANGED <<frame, issued, given>>
If(can, action) == E.ok = (TRUE = can) /\ IF E.ok THEN action /\ Seen ELSE Skip
Put(f, x) == frame' = [frame EXCEPT ![f] = x] /\ UNCHANGED <<issued, given>>
M == [x \in DOMAIN E.m |-> <<E.m[x][1] + 1, E.m[x][2] + 1>>]
Result(f) == E.frames[CHOOSE k \in DOMAIN E.frames : E.frames[k].f = f].v.track
Give(k, v) == given' = [given EXCEPT ![k].ids = @ \cup {v}] /\ UNCHANGED <<frame, issued>>

Next ==
  \/ Step("frame") /\ Put(E.f, [Empty EXCEPT !.kp = E.kp, !.has = E.has, !.track = E.track]) /\ Seen
  \/ Step("apply") /\ If(CanApply(M, frame[E.f], frame[E.g]),
        LET s == Starts(M, frame[E.f], frame[E.g]) IN
        /\ (\A x \in s : M[x][1] \in DOMAIN Result(E.f))
        /\ Apply(E.f, E.g, M, [x \in s |-> Result(E.f)[M[x][1]]]) /\ UNCHANGED given)
  \/ Step("channel") /\ E.ok /\ E.same /\ Put(E.f, WithChannel(frame[E.f])) /\ Seen
  \/ Step("reset") /\ Reset /\ UNCHANGED given /\ Seen
  \/ Step("insert") /\ If(CanInsert(frame[E.f], E.kp, E.unc, E.rows, E.type), Put(E.f, Inserted(frame[E.f], E.kp, E.unc)))
  \/ Step("append") /\ If(CanAppend(frame[E.f], E.kp, E.unc, E.rows, E.type), Put(E.f, Appended(frame[E.f], E.kp, E.unc)))
  \/ Step("provider") /\ given' = [given EXCEPT ![E.k] = [first |-> E.v, ids |-> {}]] /\ UNCHANGED <<frame, issued>> /\ Seen
  \/ Step("fresh") /\ E.v \notin given[E.k].ids /\ E.v >= given[E.k].first /\ (given[E.k].ids = {} => E.v = given[E.k].first) /\ Give(E.k, E.v) /\ Seen
  \/ Step("any") /\ E.v \notin given[E.k].ids /\ E.v >= given[E.k].first /\ Give(E.k, E.v) /\ Seen
  \/ Step("again") /\ given' = [given EXCEPT ![E.k].ids = {}] /\ UNCHANGED <<frame, issued>> /\ Seen

TraceSpec == TraceInit /\ [][Next]_<<frame, issued, given, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
