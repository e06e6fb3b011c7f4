------------------------------ MODULE Projection ------------------------------
(* From points to keypoints and back, in exact arithmetic: numbers are       *)
(* fractions <<n, d>> in lowest terms, d > 0.  Points are integers, to be     *)
(* scaled by 2^-e.                                                            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Q(n, d) == LET g == Gcd(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
Add(a, b) == LET g == Gcd(a[2], b[2])  x == b[2] \div g  y == a[2] \div g IN Q(a[1] * x + b[1] * y, a[2] * x)
Neg(a) == <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == LET x == Q(a[1], b[2])  y == Q(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
Div(a, b) == Mul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Zero == <<0, 1>>
One == <<1, 1>>
N(n) == <<n, 1>>
Pow2(d) == d \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}

\* A camera: [kind: 0 pinhole, 1 unified projection, 2 three-dimensional lidar, intr, w, h, dist: 0 none, 1 radial-tangential,
\* 2 equidistant, 3 fisheye, coef].  Units: the lidar's angles are multiples of pi; with equidistant distortion,
\* focal lengths are multiples of 4/pi and coefficient k of (4/pi)^2k.
Positive(q) == q[1] > 0
ValidCamera(c) ==
  /\ CASE c.kind = 0 -> Len(c.intr) = 4 /\ \A i \in 1..4 : Positive(c.intr[i])
       [] c.kind = 1 -> Len(c.intr) = 5 /\ c.intr[1][1] >= 0 /\ \A i \in 2..5 : Positive(c.intr[i])
       [] c.kind = 2 -> Len(c.intr) = 4 /\ Positive(c.intr[1]) /\ Positive(c.intr[2])
  /\ CASE c.dist = 0 -> TRUE
       [] c.dist \in {1, 2} -> Len(c.coef) = 4
       [] c.dist = 3 -> Len(c.coef) = 1 /\ (c.coef[1] = Zero \/ (~Less(c.coef[1], <<1, 2>>) /\ ~Less(<<3, 2>>, c.coef[1])))
Focal(c) == IF c.kind = 1 THEN <<c.intr[2], c.intr[3]>> ELSE <<c.intr[1], c.intr[2]>>
Center(c) == IF c.kind = 1 THEN <<c.intr[4], c.intr[5]>> ELSE <<c.intr[3], c.intr[4]>>
Xi(c) == c.intr[1]

Squares(p) == p[1] * p[1] + p[2] * p[2] + p[3] * p[3]
HasNorm(p) == \E d \in 0..60 : d * d = Squares(p)
Norm(p) == CHOOSE d \in 0..60 : d * d = Squares(p)

\* Farther than 1e-10 (2^-33 is 1.16e-10), 0.01 (2^-6 is 0.0156), 1e-6 (2^-19 is 1.9e-6).
Farther(n, e) == n > 0 /\ CASE e <= 33 -> TRUE [] e = 34 -> n > 1 [] OTHER -> n > 110
LidarFar(p, e) == LET s == Squares(p) IN s > 0 /\ CASE e <= 6 -> TRUE [] e = 7 -> s > 1 [] OTHER -> FALSE
LidarNear(p, e) == LET s == Squares(p) IN s = 0 \/ (e = 20 /\ s = 1) \/ e > 30

\* The point of the plane at distance one that the camera sees in this direction.
Reaches(c, p) == c.kind = 0 \/ LET d == Norm(p) IN
  IF Less(One, Xi(c)) THEN p[3] * Xi(c)[1] > -(d * Xi(c)[2]) ELSE p[3] * Xi(c)[2] > -(d * Xi(c)[1])
Plane(c, p) == IF c.kind = 0 THEN <<Q(p[1], p[3]), Q(p[2], p[3])>>
               ELSE LET s == Add(N(p[3]), Mul(Xi(c), N(Norm(p)))) IN <<Div(N(p[1]), s), Div(N(p[2]), s)>>
R2(m) == Add(Mul(m[1], m[1]), Mul(m[2], m[2]))

Twice(a) == Mul(N(2), a)
RadTan(k, m) ==
  LET r2 == R2(m)  g == Add(Mul(k[1], r2), Mul(k[2], Mul(r2, r2)))  xy == Mul(m[1], m[2]) IN
  <<Add(Add(m[1], Mul(m[1], g)), Add(Mul(Twice(k[3]), xy), Mul(k[4], Add(r2, Twice(Mul(m[1], m[1])))))),
    Add(Add(m[2], Mul(m[2], g)), Add(Mul(Twice(k[4]), xy), Mul(k[3], Add(r2, Twice(Mul(m[2], m[2]))))))>>
\* In units of pi/4, where the angle is zero or one of those.
Equidistant(k, m) ==
  IF m = <<Zero, Zero>> THEN m ELSE LET s == Add(One, Add(Add(k[1], k[2]), Add(k[3], k[4]))) IN <<Mul(m[1], s), Mul(m[2], s)>>
\* The factor atan(2 tan(w/2) r) / (r w) of fisheye distortion in millionths, for some w and r^2.
Fisheye == <<
  <<<<1,2>>, <<0,1>>, 1021368>>,
  <<<<1,2>>, <<1,16>>, 1015872>>,
  <<<<1,2>>, <<1,8>>, 1010481>>,
  <<<<1,2>>, <<1,4>>, 1000000>>,
  <<<<1,2>>, <<5,16>>, 994903>>,
  <<<<1,2>>, <<1,2>>, 980152>>,
  <<<<1,2>>, <<1,1>>, 944316>>,
  <<<<1,2>>, <<5,4>>, 928047>>,
  <<<<1,2>>, <<2,1>>, 884564>>,
  <<<<1,1>>, <<0,1>>, 1092605>>,
  <<<<1,1>>, <<1,16>>, 1066587>>,
  <<<<1,1>>, <<1,8>>, 1042659>>,
  <<<<1,1>>, <<1,4>>, 1000000>>,
  <<<<1,1>>, <<5,16>>, 980850>>,
  <<<<1,1>>, <<1,2>>, 930272>>,
  <<<<1,1>>, <<1,1>>, 829623>>,
  <<<<1,1>>, <<5,4>>, 791394>>,
  <<<<1,1>>, <<2,1>>, 704568>>,
  <<<<3,2>>, <<0,1>>, 1242129>>,
  <<<<3,2>>, <<1,16>>, 1162437>>,
  <<<<3,2>>, <<1,8>>, 1098360>>,
  <<<<3,2>>, <<1,4>>, 1000000>>,
  <<<<3,2>>, <<5,16>>, 960914>>,
  <<<<3,2>>, <<1,2>>, 868839>>,
  <<<<3,2>>, <<1,1>>, 718808>>,
  <<<<3,2>>, <<5,4>>, 669768>>,
  <<<<3,2>>, <<2,1>>, 569492>>>>
HasGain(w, r2) == w = Zero \/ \E i \in DOMAIN Fisheye : Fisheye[i][1] = w /\ Fisheye[i][2] = r2
Gain(w, r2) == IF w = Zero THEN 1000000 ELSE LET i == CHOOSE i \in DOMAIN Fisheye : Fisheye[i][1] = w /\ Fisheye[i][2] = r2 IN Fisheye[i][3]

\* What is known exactly.
KnownDistortion(c, m) == CASE c.dist = 0 -> TRUE [] c.dist = 1 -> m[1][2] <= 4 /\ m[2][2] <= 4 [] c.dist = 2 -> R2(m) \in {Zero, One} [] c.dist = 3 -> HasGain(c.coef[1], R2(m))
Axis(p) == \* A multiple of 45 degrees, sideways and upwards.
  /\ p[1] = 0 \/ p[3] = 0 \/ Abs(p[1]) = Abs(p[3])
  /\ p[2] = 0 \/ (p[1] = 0 /\ p[3] = 0) \/ p[2] * p[2] = p[1] * p[1] + p[3] * p[3]
Known(c, p) ==
  IF c.kind = 2 THEN Axis(p)
  ELSE IF c.kind = 0 THEN p[3] # 0 /\ KnownDistortion(c, Plane(c, p))
  ELSE HasNorm(p) /\ (Reaches(c, p) => KnownDistortion(c, Plane(c, p)))

Distort(c, m) == CASE c.dist = 0 -> m [] c.dist = 1 -> RadTan(c.coef, m) [] c.dist = 2 -> Equidistant(c.coef, m)
\* Angles in units of pi/4: sideways (opposite directions meet behind), upwards.
Sideways(p) == LET x == p[1]  z == p[3]  sx == IF x > 0 THEN 1 ELSE -1 IN
  CASE x = 0 -> IF z > 0 THEN {0} ELSE IF z < 0 THEN {4, -4} ELSE {0, 4, -4}
    [] z = 0 -> {2 * sx} [] z > 0 -> {sx} [] OTHER -> {3 * sx}
Upwards(p) == LET sy == IF p[2] > 0 THEN 1 ELSE -1 IN IF p[2] = 0 THEN 0 ELSE IF p[1] = 0 /\ p[3] = 0 THEN 2 * sy ELSE sy
LidarKeypoint(c, a, p) ==
  LET u == Div(Add(Q(a, 4), c.intr[4]), c.intr[1]) IN
  <<IF u[1] < 0 THEN Add(u, N(c.w)) ELSE u, Div(Add(Q(Upwards(p), 4), c.intr[3]), c.intr[2])>>
Keypoints(c, p) ==
  IF c.kind = 2 THEN {LidarKeypoint(c, a, p) : a \in Sideways(p)}
  ELSE LET d == Distort(c, Plane(c, p)) IN {<<Add(Mul(Focal(c)[1], d[1]), Center(c)[1]), Add(Mul(Focal(c)[2], d[2]), Center(c)[2])>>}

Inside(c, k) == k[1][1] >= 0 /\ k[2][1] >= 0 /\ Less(k[1], N(c.w)) /\ Less(k[2], N(c.h))
OnEdge(c, k) == k[1] \in {Zero, N(c.w)} \/ k[2] \in {Zero, N(c.h)}
\* Arithmetic in floating point is exact.
Sharp(c, p) == c.kind = 0 /\ c.dist \in {0, 1} /\ Pow2(Plane(c, p)[1][2]) /\ Pow2(Plane(c, p)[2][2])
Visible == 0  Outside == 1  Behind == 2  Invalid == 3
\* Whether a point in this direction can be seen at all; otherwise, why not.
Depth(c, p, e) ==
  CASE c.kind = 0 -> IF Farther(p[3], e) THEN Visible ELSE IF p[3] < 0 THEN Behind ELSE Invalid
    [] c.kind = 1 -> IF Reaches(c, p) /\ Farther(Norm(p), e) THEN Visible ELSE Invalid
    [] c.kind = 2 -> IF LidarFar(p, e) THEN Visible ELSE Invalid
Statuses(c, p, e, k) == IF Depth(c, p, e) # Visible THEN {Depth(c, p, e)} ELSE
  {IF Inside(c, k) THEN Visible ELSE Outside} \cup (IF OnEdge(c, k) /\ ~Sharp(c, p) THEN {Visible, Outside} ELSE {})
Origin == <<Zero, Zero>>
Results(c, p, e) ==
  IF (c.kind = 1 /\ ~Reaches(c, p)) \/ (c.kind = 2 /\ LidarNear(p, e)) THEN {<<Invalid, Origin>>}
  ELSE UNION {{<<s, k>> : s \in Statuses(c, p, e, k)} : k \in Keypoints(c, p)}

\* With fisheye distortion: in millionths, focal lengths and center being integers.
Millionths(c, p) ==
  LET m == Plane(c, p)  g == Gain(c.coef[1], R2(m))  f == Focal(c)  o == Center(c) IN
  <<(f[1][1] * g * m[1][1]) \div m[1][2] + 1000000 * o[1][1], (f[2][1] * g * m[2][1]) \div m[2][2] + 1000000 * o[2][1]>>
\* On the border, rounding decides.
AtBorder(v, n) == Abs(v) <= 12 \/ Abs(v - 1000000 * n) <= 12
BorderMillionths(c, k) == AtBorder(k[1], c.w) \/ AtBorder(k[2], c.h)
InsideMillionths(c, k) == k[1] >= 0 /\ k[2] >= 0 /\ k[1] < 1000000 * c.w /\ k[2] < 1000000 * c.h

Negated(p) == <<-p[1], -p[2], -p[3]>>
Homogeneous(p, w) == IF w < 0 THEN Negated(p) ELSE p

\* The point of the plane, undistorted, for this keypoint; whether the camera sees anything there.
OfKeypoint(c, k) == <<Div(Sub(k[1], Center(c)[1]), Focal(c)[1]), Div(Sub(k[2], Center(c)[2]), Focal(c)[2])>>
Liftable(c, m) == c.kind = 0 \/ ~Less(One, Xi(c)) \/ ~Less(One, Mul(R2(m), Sub(Mul(Xi(c), Xi(c)), One)))
\* A ray meets the center of the camera only in front; a pinhole sees what is behind it upside down.
Ray(c, p) == IF c.kind = 0 /\ p[3] < 0 THEN Negated(p) ELSE p

Half(n) == Q(n, 2)
Border(c) == <<Origin, <<Zero, Half(c.h)>>, <<Zero, N(c.h - 1)>>, <<N(c.w - 1), Zero>>, <<N(c.w - 1), Half(c.h)>>, <<N(c.w - 1), N(c.h - 1)>>,
               <<Half(c.w), Zero>>, <<Half(c.w), N(c.h - 1)>>>>
=============================================================================
