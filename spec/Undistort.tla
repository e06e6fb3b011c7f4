------------------------------ MODULE Undistort ------------------------------
(* The pipeline of one camera, which makes a frame of each image, and         *)
(* undistorters, which show an image as another camera would see it.          *)
(* An image is a sequence of rows of numbers.                                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES pipe,   \* None or [in, out: cameras, flips: is the image undistorted (turned over), tells: is it processed, copy]
          ids,    \* identifiers of the frames made so far
          map,    \* None or [in, out, u, v: rows of the place in the input each pixel of the output shows]
          made    \* output cameras so far: [of: what they were made for, alpha, k]
None == [on |-> FALSE]
Size == <<<<4, 3>>, <<5, 2>>, <<4, 3>>>>     \* width and height of the cameras
Image(w, h, fill) == [y \in 1..h |-> [x \in 1..w |-> fill + (x - 1) + 10 * (y - 1)]]
Fits(c, w, h) == w = Size[c][1] /\ h = Size[c][2]
\* The stand-in for an undistorter in the pipeline.
Flip(m, c) == LET w == Len(m[1])  h == Len(m) IN [y \in 1..Size[c][2] |-> [x \in 1..Size[c][1] |-> m[(y % h) + 1][(x % w) + 1] + 1]]

CanPipe(kind, in, out) == CASE kind = 0 -> in # 0 [] kind = 1 -> in # 0 /\ out # 0 [] kind = 2 -> TRUE [] kind = 3 -> FALSE
Pipe(kind, in, out, copy) == pipe' = [on |-> TRUE, in |-> in, out |-> IF kind = 0 THEN in ELSE out, flips |-> kind = 2, tells |-> kind # 0, copy |-> copy]
                             /\ UNCHANGED <<ids, map, made>>
\* The frame of an image: its own identifier, both cameras, the image itself or a copy, and what the processing is given.
Frame(id, m) == id \notin ids /\ ids' = ids \cup {id} /\ UNCHANGED <<pipe, map, made>>
Given(m) == IF pipe.flips THEN Flip(m, pipe.out) ELSE m

SameSize(m, w, h) == Len(m) = h /\ \A y \in DOMAIN m : Len(m[y]) = w
CanMap(in, out, w, h, hv) == Fits(out, w, h) /\ hv = h
Map(in, out, u, v) == map' = [on |-> TRUE, in |-> in, out |-> out, u |-> u, v |-> v] /\ UNCHANGED <<pipe, ids, made>>
\* Places outside the image are dark.
Pixel(m, x, y) == IF y + 1 \in DOMAIN m /\ x + 1 \in DOMAIN m[1] THEN m[y + 1][x + 1] ELSE 0
Shown(m) == [y \in DOMAIN map.u |-> [x \in DOMAIN map.u[1] |-> Pixel(m, map.u[y][x], map.v[y][x])]]

(* Output cameras.  r: [kind, dist, w, h, scale (eighths), alpha (quarters), how] *)
CanMake(r) == r.kind \in {0, 1} /\ r.alpha \in 0..4 /\ r.scale > 0
OutW(r) == (r.scale * r.w) \div 8
OutH(r) == (r.scale * r.h) \div 8
OutKind(r) == IF r.how = 2 THEN 0 ELSE r.kind
Of(r) == <<r.kind, r.dist, r.w, r.h, r.scale, IF r.kind = 1 /\ r.how = 2 THEN 2 ELSE 0>>
Close(a, b, d) == a - b <= d /\ b - a <= d
\* Without distortion, and the projection kept, the image is only scaled: thousandths of the input's focal lengths W and 3/4 W and center.
Plain(r) == r.dist = 0 /\ (r.kind = 0 \/ r.how # 2)
Scaled(r) == LET x == OutW(r) - 1  y == OutH(r) - 1 IN
  <<1000 * x, (750 * r.w * y) \div r.h, (500 * x * (r.w - 2)) \div r.w, (500 * y * (r.h + 2)) \div r.h>>
Focal(r, k) == IF OutKind(r) = 1 THEN SubSeq(k, 2, 5) ELSE k
\* Between the camera without blank pixels (alpha 0) and the one without loss (alpha 4) intrinsics are interpolated.
Between(r, k) == \A a, b \in made : a.of = Of(r) /\ b.of = Of(r) /\ a.alpha = 0 /\ b.alpha = 4 =>
  \A i \in DOMAIN k : Close(4 * k[i], (4 - r.alpha) * a.k[i] + r.alpha * b.k[i], 40)
Same(r, k) == \A a \in made : a.of = Of(r) /\ a.alpha = r.alpha => a.k = k
Make(r, k) == made' = made \cup {[of |-> Of(r), alpha |-> r.alpha, k |-> k]} /\ UNCHANGED <<pipe, ids, map>>
=============================================================================
