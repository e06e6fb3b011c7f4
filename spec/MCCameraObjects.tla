--------------------------- MODULE MCCameraObjects ---------------------------
(* Clients that set up, copy, mask and store small cameras; what follows from  *)
(* the definitions is checked for every keypoint around them.                 *)
EXTENDS CameraObjects, TLC
CONSTANTS Sizes, MaxSteps
VARIABLE last
Start == Camera(0, <<8, 8, 8, 8>>, 2, 1, 1, <<1, 2, 3, 4>>, 1)
Masks(c) == [1..c.h -> [1..c.w -> {0, 1}]]
Init == cam = [s \in Slot |-> IF s = 0 THEN Start ELSE None] /\ last = <<"start">>
On(s) == cam[s].on
Edits == {"", "extra", "nodelay", "nodist", "distfish", "distradtan", "notopic"}
Next ==
  \/ \E s \in Slot, k \in 0..2, w, h \in Sizes : Put(s, Camera(k, IF k = 1 THEN <<0, 8, 8, 8, 8>> ELSE <<8, 8, 8, 8>>, w, h, 0, <<>>, 2)) /\ last' = <<"new", s>>
  \/ \E s, g \in Slot : On(s) /\ s # g /\ Put(g, cam[s]) /\ last' = <<"copy", s, g>>
  \/ \E s \in Slot, t \in {<<0, 0>>, <<0, 999999>>, <<2, 500001>>} : On(s) /\ Put(s, [cam[s] EXCEPT !.delay = t]) /\ last' = <<"delay", s>>
  \/ \E s \in Slot : On(s) /\ (\E m \in Masks(cam[s]) : CanMask(cam[s], Len(m[1]), Len(m), 0) /\ Put(s, [cam[s] EXCEPT !.mask = m])) /\ last' = <<"mask", s>>
  \/ \E s \in Slot : On(s) /\ cam[s].mask # <<>> /\ Put(s, [cam[s] EXCEPT !.mask[1][1] = 1 - @]) /\ last' = <<"paint", s>>
  \/ \E s \in Slot : On(s) /\ Put(s, [cam[s] EXCEPT !.comp = ~@, !.topic = 1 - @]) /\ last' = <<"label", s>>
  \/ \E s, g \in Slot, e \in Edits : On(s) /\ s # g /\ Put(g, Read(cam[s], e, IF On(g) THEN cam[g] ELSE Fresh)) /\ last' = <<"read", s, g, e>>
Bounded == TLCGet("level") <= MaxSteps
Spec == Init /\ [][Next]_<<cam, last>>

Border(n) == {q \in -4..(4 * n) : q % 4 \in {0, 3}}
Around(c) == {<<x, y>> : x \in Border(c.w), y \in Border(c.h)}
Digits(t) == t[1] \in Int /\ t[2] \in 0..(Base - 1)
TypeOK == \A s \in Slot : On(s) => Valid(cam[s].kind, cam[s].intr) /\ ValidCoef(cam[s].dist, cam[s].coef) /\ Digits(cam[s].delay)
Fits(c) == c.mask = <<>> \/ (Len(c.mask) = c.h /\ Len(c.mask[1]) = c.w)
\* The camera the last step made or changed.
Touched == IF Len(last) = 1 THEN Slot ELSE {last[IF last[1] \in {"copy", "read"} THEN 3 ELSE 2]}
\* A keypoint that is not masked is inside; without margin, inside is inside by zero; a larger margin takes in no more.
Keypoints == \A s \in Touched : On(s) /\ Fits(cam[s]) => LET c == cam[s] IN \A k \in Around(c) :
  /\ ~Masked(c, k[1], k[2]) => Inside(c, k[1], k[2])
  /\ Inside(c, k[1], k[2]) = InsideBy(c, k[1], k[2], 0)
  /\ c.mask = <<>> => Masked(c, k[1], k[2]) = ~Inside(c, k[1], k[2])
  /\ \A m \in {0, 3} : InsideBy(c, k[1], k[2], m + 1) => InsideBy(c, k[1], k[2], m)
\* Later lines are exposed later, by one delay each; those of the image within the time of the image.
After(t, u) == t[1] < u[1] \/ (t[1] = u[1] /\ t[2] <= u[2])
Lag == \A s \in Touched : On(s) => LET c == cam[s] IN \A k \in Around(c) :
  /\ Digits(Delay(c, k[1], k[2]))
  /\ After(Delay(c, k[1], k[2]), Delay(c, k[1] + 4, k[2] + 4))
  /\ Inside(c, k[1], k[2]) => After(<<0, 0>>, Delay(c, k[1], k[2])) /\ After(Delay(c, k[1], k[2]), MaxDelay(c))
  /\ (c.delay = <<0, 0>>) = (Delay(c, 4, 4) = <<0, 0>>)
CopyEqual == last[1] = "copy" \/ (last[1] = "read" /\ last[4] = "") \/ (last[1] = "read" /\ last[4] = "extra") =>
  On(last[2]) /\ Equal(cam[last[2]], [cam[last[3]] EXCEPT !.mask = <<>>])
\* Reading again changes nothing.
Stable == last[1] = "read" /\ last[4] # "notopic" => Read(cam[last[3]], last[4], cam[last[3]]) = cam[last[3]]
=============================================================================
