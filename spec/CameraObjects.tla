---------------------------- MODULE CameraObjects ----------------------------
(* Cameras as objects: what is set is what is answered, copies are their own, *)
(* masks and image borders decide which keypoints count, lines are exposed    *)
(* one after the other, and documents carry a camera over.                    *)
(* Calibrations are in eighths, keypoints in quarters of a pixel, times are   *)
(* <<a, b>>: a 10^6 + b nanoseconds, 0 <= b < 10^6.                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slot
VARIABLES cam    \* slot -> None or a camera
None == [on |-> FALSE]
\* kind: 0 pinhole, 1 unified projection, 2 three-dimensional lidar; dist: 0 none, 1 radial-tangential, 2 equidistant, 3 fisheye;
\* mask: rows of numbers, zero where nothing is to be seen (no rows: there is no mask).
Camera(kind, intr, w, h, dist, coef, id) ==
  [on |-> TRUE, id |-> id, topic |-> 0, desc |-> 0, kind |-> kind, intr |-> intr, w |-> w, h |-> h, dist |-> dist,
   coef |-> IF dist = 0 THEN <<>> ELSE coef, delay |-> <<0, 0>>, comp |-> FALSE, mask |-> <<>>]
Put(s, c) == cam' = [cam EXCEPT ![s] = c]

(* Calibrations. *)
Size(kind) == IF kind = 1 THEN 5 ELSE 4
Valid(kind, i) ==
  /\ Len(i) = Size(kind)
  /\ CASE kind = 0 -> \A k \in 1..4 : i[k] > 0
       [] kind = 1 -> i[1] >= 0 /\ \A k \in 2..5 : i[k] > 0
       [] kind = 2 -> i[1] > 0 /\ i[2] > 0
CoefSize(dist) == CASE dist = 0 -> 0 [] dist = 3 -> 1 [] OTHER -> 4
ValidCoef(dist, k) == CASE dist = 0 -> TRUE [] dist = 3 -> Len(k) = 1 /\ (k[1] = 0 \/ k[1] \in 4..12) [] OTHER -> Len(k) = 4
\* how: 2 is the factory, which wants an identifier and makes no lidars.
CanMake(kind, i, dist, k, id, how) == Valid(kind, i) /\ ValidCoef(dist, k) /\ (how = 2 => id # 0 /\ kind # 2)

(* Keypoints. *)
Inside(c, x, y) == x >= 0 /\ y >= 0 /\ x < 4 * c.w /\ y < 4 * c.h
MaskedAt(c, x, y) == c.mask[(y \div 4) + 1][(x \div 4) + 1] = 0
Masked(c, x, y) == ~Inside(c, x, y) \/ (c.mask # <<>> /\ MaskedAt(c, x, y))
HasRoom(c, m) == 2 * m < 4 * c.w /\ 2 * m < 4 * c.h
InsideBy(c, x, y, m) == x >= m /\ y >= m /\ x < 4 * c.w - m /\ y < 4 * c.h - m
CanMask(c, w, h, type) == type = 0 /\ w = c.w /\ h = c.h

(* Time. *)
Base == 1000000
Times(n, t) == <<n * t[1] + ((n * t[2]) \div Base), (n * t[2]) % Base>>
\* The whole line a coordinate lies in, counted towards zero.
LineOf(q) == IF q >= 0 THEN q \div 4 ELSE -((-q) \div 4)
ByColumns(c) == c.kind = 2
Delay(c, x, y) == Times(LineOf(IF ByColumns(c) THEN x ELSE y), c.delay)
Extent(c) == IF ByColumns(c) THEN c.w ELSE c.h
MaxDelay(c) == Times(Extent(c), c.delay)
Lines(c) == IF c.delay = <<0, 0>> THEN 1 ELSE Extent(c)

(* Equality leaves the mask out. *)
Equal(a, b) == [a EXCEPT !.mask = <<>>] = [b EXCEPT !.mask = <<>>]

(* Documents.  What an edit of one makes of the camera that is read: "refused", or the camera. *)
Refused == {"notype", "badtype", "nowidth", "noheight", "badheight", "nointr", "badintr", "shortintr", "longintr", "zerointr", "textdist",
            "distnotype", "distbadtype", "distnoparams", "distshort", "distlong", "distfar", "null", "text", "list"}
Some4 == <<1, 2, 3, 4>>
Distorted(c, d, k) == [c EXCEPT !.dist = d, !.coef = k]
\* c, written and edited; old: what the reader was before, keeping its labels if the document has none.
Edited(c, e, old) ==
  CASE e \in {"", "extra"} -> c
    [] e = "nodelay" -> [c EXCEPT !.delay = <<0, 0>>]
    [] e = "baddelay" -> [c EXCEPT !.delay = <<0, 0>>]
    [] e \in {"nocomp", "badcomp"} -> [c EXCEPT !.comp = FALSE]
    [] e \in {"nodist", "nulldist", "distnone"} -> Distorted(c, 0, <<>>)
    [] e = "distfish" -> Distorted(c, 3, <<10>>)
    [] e = "distradtan" -> Distorted(c, 1, Some4)
    [] e = "distequi" -> Distorted(c, 2, Some4)
    [] e = "notopic" -> [c EXCEPT !.topic = old.topic]
    [] e = "noid" -> c
\* A new reader has no labels and no mask; one that is there keeps its mask.
Fresh == [topic |-> 0, mask |-> <<>>]
Read(c, e, old) == [Edited(c, e, old) EXCEPT !.mask = old.mask]
=============================================================================
