------------------------------ MODULE GyroTrace ------------------------------
EXTENDS Gyro, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ set = [ratio |-> 0] /\ last = <<>> /\ flown = {} /\ known = Nothing
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
RangeOf(s) == {s[i] : i \in DOMAIN s}
Skip == UNCHANGED <<set, last, flown, known>>

Next ==
  \/ Step("settings") /\ E.ok = (TRUE = CanSet(E.ratio, E.most))
     /\ IF E.ok THEN set' = [ratio |-> E.ratio, most |-> E.most, least |-> E.least, border |-> E.border, w |-> E.w, h |-> E.h] /\ known' = Nothing /\ flown' = {} /\ UNCHANGED last
        ELSE Skip
  \/ Step("first") /\ First(E.now)
  \/ Step("track") /\ E.ok = (E.bad = 0) /\ IF ~E.ok THEN Skip ELSE
       /\ E.images /\ E.same
       /\ \A a, b \in DOMAIN E.asked : a # b => E.asked[a].k # E.asked[b].k
       /\ \A a \in DOMAIN E.asked : LET k == E.asked[a].k IN k \in DOMAIN last /\ <<E.asked[a].x, E.asked[a].y>> = Expected(k, E.turned)
       /\ Cardinality(RangeOf(E.res)) = Len(E.res)
       /\ LET new == {p \in RangeOf(E.res) : p[1] > Len(E.det)} IN
          /\ {p[1] : p \in new} = (Len(E.det) + 1)..(Len(E.det) + Cardinality(new))
          /\ Track(E.det, E.flow, E.turned, {E.asked[a].k : a \in DOMAIN E.asked},
                   [k \in 1..Cardinality(new) |-> (CHOOSE p \in new : p[1] = Len(E.det) + k)[2]], RangeOf(E.res))
       /\ last' = E.now
  \/ Step("apply") /\ Len(E.now) = Len(last) /\ Identify([i \in DOMAIN last |-> E.now[i].t]) /\ last' = E.now

TraceSpec == TraceInit /\ [][Next]_<<set, last, flown, known, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
