---------------------------- MODULE TargetsTrace ----------------------------
(* Recorded use of real targets, observations and the detector.               *)
EXTENDS Targets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ target = None
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid

AllRefused(s) == \A i \in DOMAIN s : s[i] = 1
Shows(t, o) == IF ~t.on THEN ~o.on ELSE
  /\ o.on /\ o.rows = Rows(t) /\ o.cols = Cols(t) /\ o.num = Num(t) /\ o.trows = t.rows /\ o.tcols = t.cols /\ o.size = t.size /\ o.gap = t.gap
  /\ o.pts = t.pts /\ o.width = Width(t) /\ o.height = Height(t) /\ o.agree /\ o.bits = 2 /\ AllRefused(o.refused)
  /\ o.at = [i \in 1..Num(t) |-> i - 1]
  /\ o.coord = [i \in 1..Num(t) |-> <<ColOf(t, i - 1), RowOf(t, i - 1)>>]
Quiet == UNCHANGED target
\* A refused operation ends the recording.
If(can, action) == E.ok = (TRUE = can) /\ IF E.ok THEN action /\ Shows(target', E.now) ELSE Quiet

(* What an observation answers; it holds the pairs s of a point and a place. *)
Answers(o, t) ==
  /\ o.on /\ o.agree /\ AllRefused(o.refused) /\ Len(o.corners) = Len(o.ids) /\ Len(o.seen) = Num(t) /\ Len(o.byid) = Num(t)
  /\ o.all = (Len(o.ids) = Num(t))
  /\ \A i \in 1..Num(t) : LET at == {k \in DOMAIN o.ids : o.ids[k] = i - 1} IN
       /\ o.seen[i] = Cardinality(at)
       /\ IF at = {} THEN o.byid[i] = <<>> ELSE \A k \in at : o.byid[i] = o.corners[k]
  /\ o.places = [k \in DOMAIN o.ids |-> t.pts[o.ids[k] + 1]]
Pairs(o) == {<<o.ids[k], o.corners[k]>> : k \in DOMAIN o.ids}

Eighths(s) == CASE s = "1" -> 8 [] s = "0.5" -> 4 [] s = "2" -> 16 [] s = "0.25" -> 2 [] s = "0" -> 0 [] s = "-1" -> -8
Number(s) == CASE s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3 [] s = "0" -> 0
\* Entries that are missing or no number keep what a target has otherwise, but there is no spacing to keep.
Bad(s) == s \in {"-", "x", "[1]"}
Spec_(d) == LET r == IF Bad(d[2]) THEN 6 ELSE Number(d[2])  c == IF Bad(d[3]) THEN 6 ELSE Number(d[3]) IN
  [rows |-> r, cols |-> c, size |-> Eighths(d[4]), gap |-> IF Bad(d[5]) THEN 0 ELSE (Eighths(d[4]) * Eighths(d[5])) \div 8]
Next ==
  \/ Step("t") /\ If(CanMake(E.rows, E.cols, E.size, E.gap), target' = Make(E.rows, E.cols, E.size, E.gap))
  \/ Step("y") /\ LET c == Spec_(E.doc) IN
       If(E.doc[1] = "aprilgrid" /\ CanMake(c.rows, c.cols, c.size, c.gap), target' = Make(c.rows, c.cols, c.size, c.gap))
  \/ Step("m") /\ If(E.i \in 1..Num(target), Move(E.i, E.to))
  \/ Step("o") /\ If(2 * Len(E.ids) = Len(E.xy),
       /\ E.obs.w = E.w /\ E.obs.h = E.h /\ E.obs.ids = E.ids /\ E.obs.corners = [k \in DOMAIN E.ids |-> <<E.xy[2 * k - 1], E.xy[2 * k]>>]
       /\ Answers(E.obs, target) /\ Quiet)
  \/ Step("d") /\ E.same /\ If(TRUE,
       /\ E.obs.on = (TRUE = Detected(target, E, E.tags))
       /\ E.obs.on => /\ E.obs.w = E.w /\ E.obs.h = E.h
                      /\ Answers(E.obs, target) /\ Pairs(E.obs) = Seen(target, E, E.tags) /\ Len(E.obs.ids) = Cardinality(Pairs(E.obs))
       /\ Quiet)
TraceSpec == TraceInit /\ [][Next]_<<target, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
