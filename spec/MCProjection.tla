---------------------------- MODULE MCProjection ----------------------------
(* What the exact projections have in common, on all small points.          *)
EXTENDS Projection
CONSTANT Far
VARIABLES cam, p

F == <<4, 1>>
Cameras ==
  {[kind |-> 0, intr |-> <<f, F, <<4, 1>>, <<3, 1>>>>, w |-> 8, h |-> 6, dist |-> d[1], coef |-> d[2]] :
     f \in {F, <<3, 2>>}, d \in {<<0, <<>>>>, <<1, <<<<1, 8>>, <<-1, 16>>, Zero, Zero>>>>, <<1, <<<<1, 8>>, Zero, <<1, 16>>, <<-1, 8>>>>>>,
                                <<2, <<Zero, <<1, 8>>, Zero, <<-1, 16>>>>>>}}
  \cup {[kind |-> 1, intr |-> <<xi, F, F, <<4, 1>>, <<3, 1>>>>, w |-> 8, h |-> 6, dist |-> 0, coef |-> <<>>] : xi \in {Zero, <<1, 2>>, One, <<2, 1>>}}
  \cup {[kind |-> 2, intr |-> <<<<1, 8>>, <<1, 16>>, <<1, 2>>, o>>, w |-> 16, h |-> 16, dist |-> 0, coef |-> <<>>] : o \in {Zero, <<1, 4>>}}
Points == {x \in (-Far..Far) \X (-Far..Far) \X (-Far..Far) : TRUE}
Init == cam \in Cameras /\ p \in Points
Spec == Init /\ [][UNCHANGED <<cam, p>>]_<<cam, p>>

Times(k, x) == <<k * x[1], k * x[2], k * x[3]>>
Seen == Known(cam, p) => \A r \in Results(cam, p, 0) : r[1] = Visible => Inside(cam, r[2]) \/ (OnEdge(cam, r[2]) /\ ~Sharp(cam, p))
Good == ValidCamera(cam)
\* The distance does not matter.
Scale == Known(cam, p) /\ Known(cam, Times(2, p)) => Results(cam, p, 0) = Results(cam, Times(2, p), 0)
\* Homogeneous coordinates (p, w) and (-p, -w) are the same point.
Same == \A w \in {-2, -1, 1} : Homogeneous(p, w) = Homogeneous(Negated(p), -w)
\* What is in front of a pinhole is never behind it; a keypoint in the image is seen in one of the two only.
Sides == cam.kind = 0 /\ p[3] # 0 => (Depth(cam, p, 0) = Visible) # (Depth(cam, Negated(p), 0) = Visible)
\* Without tangential distortion the picture is symmetric about the center.
Mirror == cam.kind < 2 /\ Known(cam, p) /\ (cam.dist = 1 => cam.coef[3] = Zero) /\ Reaches(cam, p) =>
  LET q == <<-p[1], p[2], p[3]>>  o == Center(cam)[1] IN
  {<<Sub(Twice(o), k[1]), k[2]>> : k \in Keypoints(cam, p)} = Keypoints(cam, q)
\* A keypoint determines the direction.
Back == cam.kind < 2 /\ cam.dist = 0 /\ Known(cam, p) /\ Reaches(cam, p) => \A k \in Keypoints(cam, p) : OfKeypoint(cam, k) = Plane(cam, p) /\ (cam.kind = 1 => Liftable(cam, Plane(cam, p)))
OneWay == cam.kind = 0 /\ cam.dist = 0 /\ p[3] > 0 => \A q \in Points : q[3] > 0 /\ Keypoints(cam, q) = Keypoints(cam, p) => p[1] * q[3] = q[1] * p[3] /\ p[2] * q[3] = q[2] * p[3]
\* All around, a lidar sees every direction level with it.
Around == cam.kind = 2 /\ p[2] = 0 /\ (p[1] # 0 \/ p[3] # 0) /\ Axis(p) => \E r \in Results(cam, p, 0) : r[1] = Visible
=============================================================================
