--------------------------- MODULE UndistortTrace ----------------------------
(* Recorded use of the real pipeline of one camera and real undistorters.     *)
EXTENDS Undistort, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, calls
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ pipe = None /\ ids = {} /\ map = None /\ made = {} /\ calls = 0
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Quiet == UNCHANGED <<pipe, ids, map, made>>
\* A refused operation ends the recording.
If(can, action) == E.ok = (TRUE = can) /\ IF E.ok THEN action ELSE Quiet
RowsOf(s, w, h) == [y \in 1..h |-> [x \in 1..w |-> s[(y - 1) * w + x]]]
M == Image(E.w, E.h, E.fill)
Const(m, v) == [y \in DOMAIN m |-> [x \in DOMAIN m[1] |-> v]]
Slack(r) == IF Plain(r) THEN 2 ELSE 64
Next ==
  \/ Step("P") /\ calls' = 0 /\ If(CanPipe(E.kind, E.in, E.out), Pipe(E.kind, E.in, E.out, E.copy) /\ E.cams = <<pipe'.in, pipe'.out, pipe'.in, pipe'.out>>)
  \/ Step("I") /\ calls' = (IF E.ok /\ pipe.tells THEN calls + 1 ELSE calls) /\ If(Fits(pipe.in, E.w, E.h),
       /\ Frame(E.id, M) /\ E.id # 0 /\ E.timed /\ E.valid /\ E.raw = pipe.in /\ E.cam = pipe.out
       /\ E.before = M /\ E.after = (IF pipe.copy THEN M ELSE Const(M, 99))
       /\ E.points = pipe.tells /\ E.calls = calls' /\ E.told /\ E.seen = (IF pipe.tells THEN Given(M) ELSE <<>>))
  \/ Step("M") /\ UNCHANGED calls /\ If(CanMap(E.in, E.out, E.w, E.h, IF E.short THEN E.h - 1 ELSE E.h),
       Map(E.in, E.out, RowsOf(E.u, E.w, E.h), RowsOf(E.v, E.w, E.h)) /\ E.kept /\ E.cams = <<E.in, E.out, E.in, E.out>>)
  \/ Step("A") /\ UNCHANGED calls /\ If(Fits(map.in, E.w, E.h), E.out = Shown(M) /\ Quiet)
  \/ Step("U") /\ UNCHANGED calls /\ If(CanMake(E),
       /\ E.copied /\ E.type = OutKind(E) /\ E.plain /\ E.ow = OutW(E) /\ E.oh = OutH(E) /\ E.sizes /\ E.off = 0
       /\ E.alpha = 0 => E.lo[1] >= -Slack(E) /\ E.lo[2] >= -Slack(E) /\ E.hi[1] <= 32 * E.w + Slack(E) /\ E.hi[2] <= 32 * E.h + Slack(E)
       /\ E.alpha = 4 => E.lost = 0
       /\ Len(E.k) = (IF E.type = 1 THEN 5 ELSE 4) /\ (E.type = 1 => E.k[1] = 500)
       /\ Plain(E) => \A i \in 1..4 : Close(Focal(E, E.k)[i], Scaled(E)[i], 5)
       /\ Same(E, E.k) /\ Make(E, E.k) /\ (TRUE = Between(E, E.k)))
TraceSpec == TraceInit /\ [][Next]_<<pipe, ids, map, made, tid, l, calls>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
