------------------------- MODULE CameraObjectsTrace --------------------------
(* Recorded operations on real cameras must be steps of CameraObjects, and    *)
(* after each the answers must be those of the specification.                 *)
EXTENDS CameraObjects, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ cam = [s \in Slot |-> None]
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid

Names == <<"kPinhole", "kUnifiedProjection", "kLidar3D">>
DistType == <<0, 3, 1, 2>>   \* as numbered by Distortion::Type
Says(c) == [type |-> c.kind, size |-> Size(c.kind), dist |-> c.dist # 0, dsize |-> CoefSize(c.dist), mask |-> c.mask # <<>>, lines |-> Lines(c),
            rows |-> ~ByColumns(c), max |-> MaxDelay(c), valid |-> c.id # 0 /\ Valid(c.kind, c.intr), name |-> Names[c.kind + 1],
            sensor |-> "CAMERA", stype |-> 2]
Public(r) == [on |-> TRUE, id |-> r.id, topic |-> r.topic, desc |-> r.desc, kind |-> r.kind, intr |-> r.intr, w |-> r.w, h |-> r.h, dist |-> r.dist,
              coef |-> r.coef, delay |-> r.delay, comp |-> r.comp, mask |-> r.mask]
Shows(c, r) == IF c.on THEN /\ r.on /\ Public(r) = c
                            /\ \A f \in DOMAIN Says(c) : r.says[f] = Says(c)[f]
                            /\ Len(r.coef) = r.says.dsize
               ELSE ~r.on
\* Equal types of distortion are told by equal numbers, others by others.
Types == \A s, g \in Slot : LET a == E.now[s + 1]  b == E.now[g + 1] IN a.on /\ b.on => ((a.dist = b.dist) = (a.says.dtype = b.says.dtype))
Seen == (\A s \in Slot : Shows(cam'[s], E.now[s + 1])) /\ Types
Quiet == UNCHANGED cam
\* A refused operation ends the recording.
If(can, action) == E.ok = (TRUE = can) /\ IF E.ok THEN action /\ Seen ELSE Quiet
C == cam[E.s]
SetC(c) == Put(E.s, c)
New(s) == E.now[s + 1]
Unused(id) == id # 0 /\ \A s \in Slot : cam[s].on => cam[s].id # id
Field(c, f, v) ==
  CASE f = "w" -> [c EXCEPT !.w = v[1]] [] f = "h" -> [c EXCEPT !.h = v[1]] [] f = "delay" -> [c EXCEPT !.delay = v] [] f = "comp" -> [c EXCEPT !.comp = v[1] = 1]
    [] f = "id" -> [c EXCEPT !.id = v[1]] [] f = "topic" -> [c EXCEPT !.topic = v[1]] [] f = "desc" -> [c EXCEPT !.desc = v[1]]
AllAre(s, b) == \A i \in DOMAIN s : s[i] = IF b THEN 1 ELSE 0
Bool(b) == TRUE = b

Next ==
  \/ Step("n") /\ If(CanMake(E.kind, E.intr, E.dist, E.coef, E.id, E.how),
       LET id == IF E.id = 0 THEN New(E.s).id ELSE E.id IN (E.id # 0 \/ Unused(id)) /\ SetC(Camera(E.kind, E.intr, E.w, E.h, E.dist, E.coef, id)))
  \/ Step("c") /\ If(TRUE, Put(E.g, C))
  \/ Step("e") /\ If(TRUE, AllAre(E.eq, Bool(Equal(C, cam[E.g]))) /\ Quiet)
  \/ Step("a") /\ If(TRUE, SetC(Field(C, E.field, E.v)))
  \/ Step("p") /\ If(Len(E.intr) = Size(C.kind), SetC([C EXCEPT !.intr = E.intr]))
  \/ Step("P") /\ If(TRUE, SetC([C EXCEPT !.intr[E.i] = E.v]))
  \/ Step("d") /\ If(ValidCoef(E.dist, E.coef), SetC([C EXCEPT !.dist = E.dist, !.coef = IF E.dist = 0 THEN <<>> ELSE E.coef]))
  \/ Step("D") /\ If(ValidCoef(C.dist, E.coef), SetC([C EXCEPT !.coef = E.coef]))
  \/ Step("Q") /\ If(TRUE, SetC([C EXCEPT !.coef[E.i] = E.v]))
  \/ Step("x") /\ If(TRUE, SetC([C EXCEPT !.dist = 0, !.coef = <<>>]))
  \/ Step("m") /\ If(CanMask(C, E.w, E.h, E.type), SetC([C EXCEPT !.mask = E.mask]))
  \/ Step("M") /\ If(TRUE, SetC([C EXCEPT !.mask[E.y][E.x] = E.v]))
  \/ Step("k") /\ If(TRUE, SetC([C EXCEPT !.mask = <<>>]))
  \/ Step("q") /\ If(TRUE,
       /\ E.masked = Bool(Masked(C, E.x, E.y)) /\ AllAre(E.vis, Bool(Inside(C, E.x, E.y)))
       /\ E.can = Bool(HasRoom(C, E.m)) /\ (E.can => AllAre(E.far, Bool(InsideBy(C, E.x, E.y, E.m))))
       /\ E.delay = Delay(C, E.x, E.y) /\ Quiet)
  \/ Step("r") /\ If(TRUE, E.good /\ Unused(E.id) /\ SetC(None))
  \/ Step("y") /\ If(TRUE,
       LET into == E.how % 2 = 1  old == IF into THEN cam[E.g] ELSE Fresh IN
       /\ E.read = (E.edit \notin Refused)
       /\ IF ~E.read THEN Put(E.g, None)
          ELSE LET c == Read(C, E.edit, old) IN
               IF E.edit = "noid" THEN Unused(New(E.g).id) /\ Put(E.g, [c EXCEPT !.id = New(E.g).id]) ELSE Put(E.g, c))
TraceSpec == TraceInit /\ [][Next]_<<cam, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
