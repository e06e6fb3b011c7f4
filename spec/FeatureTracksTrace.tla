------------------------- MODULE FeatureTracksTrace --------------------------
(* Recorded use of real feature tracks.                                       *)
EXTENDS FeatureTracks, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
Points(k, f) == [i \in 1..(3 - f * k) |-> [x |-> 4 * (100 * k + 10 * f + i - 1), y |-> 4 * (50 * f + 2 * (i - 1)), d |-> 20 * k + 5 * f + i - 1]]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ track = [s \in Slot |-> None] /\ name = [n \in Whole |-> n + 1]
             /\ point = [n \in Whole |-> IF n = 2 THEN <<Points(2, 0), <<>>>> ELSE <<Points(n, 0), Points(n, 1)>>]
             /\ label = [n \in Whole |-> <<10 * (n + 1), 10 * (n + 1) + 1>>]
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid

Key == <<E.n, E.f + 1, E.i + 1>>
\* What a reference answers; o is what was answered.
Means(k, o) == LET p == point'[k[1]][k[2]][k[3]] IN
  /\ o.n = k[1] /\ o.f + 1 = k[2] /\ o.i + 1 = k[3] /\ o.nid = name'[k[1]] /\ o.fid = label'[k[1]][k[2]]
  /\ o.x = p.x /\ o.y = p.y /\ o.d = p.d /\ o.cam = k[2] /\ o.T = k[2] /\ o.same
Shows(t, o) == IF ~t.on THEN ~o.on ELSE
  /\ o.on /\ o.id = t.id /\ o.len = Len(t.keys) /\ o.has = (t.keys # <<>>) /\ Len(o.keys) = Len(t.keys)
  /\ \A i \in DOMAIN t.keys : Means(t.keys[i], o.keys[i])
  /\ IF t.keys = <<>> THEN o.first = <<"refused">> /\ o.last = <<"refused">> ELSE o.first = o.keys[1] /\ o.last = o.keys[Len(o.keys)]
Seen == \A s \in Slot : Shows(track'[s], E.now[s + 1])
Quiet == UNCHANGED <<point, name, label, track>>
Other(num, x) == [i \in 1..num |-> [x |-> x + 4 * (i - 1), y |-> 8 * (i - 1) - x, d |-> 100 + i - 1]]
\* A refused operation ends the recording.
If(can, action) == E.ok = (TRUE = can) /\ IF E.ok THEN action /\ Seen ELSE Quiet
Next ==
  \/ Step("K") /\ If(TRUE, Change(Key, [At(Key) EXCEPT !.x = E.x, !.y = E.y]))
  \/ Step("D") /\ If(TRUE, Change(Key, [At(Key) EXCEPT !.d = E.v]))
  \/ Step("N") /\ If(TRUE, Rename(E.n, E.id))
  \/ Step("F") /\ If(TRUE, Renew(E.n, E.f + 1, Other(E.num, E.x), E.id))
  \/ Step("t") /\ If(TRUE, New(E.s, E.id))
  \/ Step("a") /\ If(Exists(Key), Add(E.s, Key))
  \/ Step("o") /\ If(TRUE, Drop(E.s))
  \/ Step("c") /\ If(TRUE, Copy(E.s, E.g))
  \/ Step("l") /\ If(TRUE, LET a == Len(track[E.s].keys)  b == Len(track[E.g].keys) IN E.lt = (a < b) /\ E.gt = (a > b) /\ Quiet)
  \/ Step("b") /\ If(track[E.s].keys # <<>>, E.d = Diagonal(track[E.s].keys) /\ Quiet)
  \/ Step("C") /\ If(E.a >= 0 /\ E.b >= 0 /\ Exists(Key), E.kept /\ E.lt = (E.a < E.b) /\ E.gt = (E.a > E.b) /\ Quiet)
TraceSpec == TraceInit /\ [][Next]_<<point, name, label, track, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
