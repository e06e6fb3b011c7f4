--------------------------- MODULE ProjectionTrace ---------------------------
(* Projections by the cameras: observed numbers are <<n, d, f>>, the fraction *)
(* n/d (d = 0: not one with a small denominator) and millionths.              *)
EXTENDS Projection, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, cam
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ cam = [kind |-> -1]
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
No == -999999

Near(a, b, tol) == a # No /\ b # No /\ a - b <= tol /\ b - a <= tol
\* Fractions with large denominators are compared by their millionths, as far as these can be computed.
InMillionths(q) == LET r == q[1] % q[2]  a == (r * 1000) \div q[2]  b == (r * 1000) % q[2] IN (q[1] \div q[2]) * 1000000 + a * 1000 + ((b * 1000) \div q[2])
Is(o, q) == (o[1] = q[1] /\ o[2] = q[2]) \/ (q[2] > 60000 /\ (q[2] > 2000000 \/ Abs(q[1]) > 2000000000 \/ Abs(q[1] \div q[2]) >= 999 \/ Near(o[3], InMillionths(q), 2)))
Fraction(o) == <<o[1], o[2]>>
WholeQ(q) == Q(q[1], q[2])
Whole(s) == [i \in DOMAIN s |-> WholeQ(s[i])]

\* One result of projecting p.
Result(c, p, e, r) ==
  IF ~Known(c, p) THEN
       IF Depth(c, p, e) # Visible THEN r.st = Depth(c, p, e)
       ELSE r.st = IF InsideMillionths(c, <<r.u[3], r.v[3]>>) THEN Visible ELSE Outside
  ELSE IF c.dist = 3 /\ ~(c.kind = 1 /\ ~Reaches(c, p)) THEN
       LET k == Millionths(c, p) IN
       /\ Near(r.u[3], k[1], 12) /\ Near(r.v[3], k[2], 12)
       /\ IF Depth(c, p, e) # Visible THEN r.st = Depth(c, p, e)
          ELSE IF BorderMillionths(c, k) THEN r.st \in {Visible, Outside}
          ELSE r.st = IF InsideMillionths(c, k) THEN Visible ELSE Outside
  ELSE \E x \in Results(c, p, e) : r.st = x[1] /\ Is(r.u, x[2][1]) /\ Is(r.v, x[2][2])
SameAll(rs) == \A i \in DOMAIN rs : rs[i].st = rs[1].st /\ (rs[1].u[3] # No => Near(rs[i].u[3], rs[1].u[3], 1)) /\ (rs[1].v[3] # No => Near(rs[i].v[3], rs[1].v[3], 1))
AllResults(c, p, e, rs) == SameAll(rs) /\ \A i \in DOMAIN rs : Result(c, p, e, rs[i])
Yes(rs, ys) == \A i \in DOMAIN ys : ys[i] = (IF rs[1].st = Visible THEN 1 ELSE 0)
\* Derivatives: the last entry is the difference quotient.
Derivatives(js) == \A j \in DOMAIN js : LET d == js[j][Len(js[j])] IN d # No => \A i \in DOMAIN js[j] : Near(js[j][i], d, 4 + Abs(d) \div 50000)

Distorted(c, m, r) ==
  CASE c.dist = 3 -> HasGain(c.coef[1], R2(m)) => LET g == Gain(c.coef[1], R2(m)) IN Near(r[1][3], (m[1][1] * g) \div m[1][2], 3) /\ Near(r[2][3], (m[2][1] * g) \div m[2][2], 3)
    [] c.dist = 2 -> \* No exact values without the unit of a focal length; the direction from the center stays.
         /\ m = Origin => Is(r[1], Zero) /\ Is(r[2], Zero)
         /\ \A i \in 1..2 : m[i] = Zero => Is(r[i], Zero)
    [] OTHER -> LET d == Distort(c, m) IN Is(r[1], d[1]) /\ Is(r[2], d[2])

Next ==
  \/ Step("cam") /\ LET c == [kind |-> E.kind, intr |-> Whole(E.intr), w |-> E.w, h |-> E.h, dist |-> E.dist, coef |-> Whole(E.coef)] IN
       E.ok = (TRUE = ValidCamera(c)) /\ cam' = IF E.ok THEN c ELSE cam
  \/ Step("p") /\ Len(E.res) = E.n /\ AllResults(cam, E.p, E.by, E.res) /\ (E.res[1].st # Invalid => Yes(E.res, IF Depth(cam, E.p, E.by) = Visible THEN E.yes ELSE SubSeq(E.yes, 1, 4)))
       /\ (E.res[1].st = Invalid => \A i \in 1..4 : E.yes[i] = 0) /\ UNCHANGED cam
  \/ Step("h") /\ AllResults(cam, Homogeneous(E.p, E.w), E.by, E.res) /\ Yes(E.res, E.yes) /\ Derivatives(E.jac)
       /\ (E.res[1].st < 2 /\ cam.kind # 2 => Len(E.jac) = 8) /\ UNCHANGED cam
  \/ Step("x") /\ LET c == [cam EXCEPT !.intr = IF E.oi THEN Whole(E.intr) ELSE @, !.coef = IF E.oc THEN Whole(E.coef) ELSE @] IN
       \* The number of parameters is checked, not what they are.
       /\ E.ok = (TRUE = (Len(c.intr) = Len(cam.intr) /\ (cam.dist # 0 => Len(c.coef) = Len(cam.coef)) /\ ~(cam.kind = 2 /\ E.oc)))
       /\ E.ok => AllResults(c, E.p, E.by, E.res)
       /\ E.same /\ UNCHANGED cam
  \/ Step("b") /\ LET k == <<WholeQ(E.u), WholeQ(E.v)>>  m == OfKeypoint(cam, k) IN
       /\ Len(E.res) = 4 /\ \A i \in 2..4 : E.res[i] = E.res[1]
       /\ LET r == E.res[1].r IN
          /\ r[1][2] # 0 /\ r[2][2] # 0
          /\ cam.dist \in {0, 1} => Distort(cam, <<Fraction(r[1]), Fraction(r[2])>>) = m
          /\ cam.kind = 0 => Is(r[3], One)
          /\ Is(r[4], Zero)
          /\ E.res[1].ok = (TRUE = Liftable(cam, IF cam.dist = 1 THEN <<Fraction(r[1]), Fraction(r[2])>> ELSE m))
       /\ UNCHANGED cam
  \/ Step("t") /\ (E.st \in {Visible, Outside, Behind} => E.ok /\ LET x == Ray(cam, E.p) IN \A i \in 1..3 : Is(E.r[i], N(x[i])))
       /\ (Known(cam, E.p) /\ cam.dist # 3 => E.st \in {x[1] : x \in Results(cam, E.p, 0)}) /\ UNCHANGED cam
  \/ Step("j") /\ AllResults(cam, E.p, 0, E.res)
       /\ Len(E.res) = 4 /\ Len(E.jp) = 6 /\ Len(E.ji) = 2 * Len(cam.intr) /\ Len(E.jd) = 2 * Len(cam.coef)
       /\ Derivatives(E.jp) /\ Derivatives(E.ji) /\ Derivatives(E.jd) /\ UNCHANGED cam
  \/ Step("d") /\ LET m == <<WholeQ(E.u), WholeQ(E.v)>> IN
       /\ \A i \in DOMAIN E.res : Distorted(cam, m, E.res[i]) /\ E.res[i] = E.res[1]
       /\ \A i \in DOMAIN E.back : \A j \in 1..2 : Near(E.back[i][j][3], (m[j][1] * 1000000) \div m[j][2], 3)
       /\ Len(E.jp) = 4 /\ Len(E.jd) = 2 * Len(cam.coef) /\ Derivatives(E.jp) /\ Derivatives(E.jd)
       /\ UNCHANGED cam
  \/ Step("r") /\ \A i \in DOMAIN E.res : E.res[i].in /\ E.res[i].st = Visible /\ Is(E.res[i].far, WholeQ(E.far))
       /\ UNCHANGED cam
  \/ Step("y") /\ Len(E.rays) = 8 /\ (\A i \in 1..8 : LET r == E.rays[i]  m == OfKeypoint(cam, Border(cam)[i]) IN
       (cam.dist = 0 => Is(r[1], m[1]) /\ Is(r[2], m[2])) /\ Is(r[3], One) /\ Is(r[4], Zero)) /\ UNCHANGED cam

TraceSpec == TraceInit /\ [][Next]_<<tid, l, cam>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
