-------------------------------- MODULE Gyro --------------------------------
(* Following keypoints from frame to frame: matching their descriptors and *)
(* optical flow for some of those without a match.                         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES set,     \* [ratio: in quarters, most, least, border, w, h]
          last,    \* the last frame: keypoints [f: looks, x, y, n: its other values, u: uncertainty, t: identifier]
          flown,   \* which of them come from optical flow
          known    \* what the tracker has seen of the frame before: identifiers, which were flown, ages; or Nothing
Nothing == [ids |-> <<>>, flown |-> {}, ages |-> <<>>]

\* For how many frames a keypoint has been followed without a change between detection and optical flow.
Earlier(i) == {j \in DOMAIN known.ids : last[i].t # -1 /\ known.ids[j] = last[i].t}
Age(i) == IF Earlier(i) = {} THEN 0 ELSE
  LET j == CHOOSE j \in Earlier(i) : TRUE IN IF (i \in flown) # (j \in known.flown) THEN 1 ELSE known.ages[j] + 1
Seen(ages) == [ids |-> [i \in DOMAIN last |-> last[i].t], flown |-> flown, ages |-> ages]

\* Where a keypoint is expected in the next frame: the camera turns about its axis, by quarters.
Expected(i, turned) ==
  LET cx == set.w \div 2  cy == set.h \div 2  dx == last[i].x - cx  dy == last[i].y - cy IN
  CASE turned = 0 -> <<cx + dx, cy + dy>> [] turned = 1 -> <<cx - dy, cy + dx>>
    [] turned = 2 -> <<cx - dx, cy - dy>> [] turned = 3 -> <<cx + dy, cy - dx>>
InImage(x, y) == x >= 0 /\ y >= 0 /\ x < set.w /\ y < set.h
Expectable(i, turned) == InImage(Expected(i, turned)[1], Expected(i, turned)[2])
Away(x, y) == x >= set.border /\ y >= set.border /\ x < set.w - set.border /\ y < set.h - set.border
\* Matched: what looks the same and is where it is expected.
Close(a, b) == a - b >= -10 /\ a - b <= 10
Matches(det, turned) == {<<a, i>> \in (DOMAIN det) \X (DOMAIN last) :
  /\ det[a].f = last[i].f /\ Expectable(i, turned)
  /\ Close(det[a].x, Expected(i, turned)[1]) /\ Close(det[a].y, Expected(i, turned)[2])}

\* Candidates for optical flow, the more deserving first: detected often enough, the longer the better;
\* then those flown, but not for too long, the shorter the better.
Candidates(m, ages) == {i \in DOMAIN last \ {p[2] : p \in m} : IF i \in flown THEN ages[i] < set.most ELSE ages[i] >= set.least}
Before(i, j, ages) == CASE i \notin flown /\ j \in flown -> TRUE
                        [] i \in flown /\ j \notin flown -> FALSE
                        [] i \in flown /\ j \in flown -> ages[i] < ages[j]
                        [] OTHER -> ages[i] > ages[j]
Smaller(a, b) == IF a < b THEN a ELSE b
Choices(det, m, ages) ==
  LET c == Candidates(m, ages) IN
  {s \in SUBSET c : /\ Cardinality(s) = Smaller(Cardinality(c), (Len(det) * set.ratio) \div 4)
                    /\ \A i \in s, j \in c \ s : ~Before(j, i, ages)}

\* flow: what happens to keypoints that optical flow follows: [ok, x, y, f: what they look like there, 0: nothing].
Arrives(i, flow) == flow[i].ok /\ Away(flow[i].x, flow[i].y) /\ flow[i].f # 0
Moved(i, flow) == [f |-> flow[i].f, x |-> flow[i].x, y |-> flow[i].y, n |-> last[i].n, u |-> 8, t |-> -1]
Orders(s) == {o \in [1..Cardinality(s) -> s] : \A a, b \in DOMAIN o : a # b => o[a] # o[b]}

\* The next frame and the matches with it; asked: what optical flow was asked to follow.
Track(det, flow, turned, asked, order, m) ==
  LET ages == [i \in DOMAIN last |-> Age(i)] IN
  /\ IF set.ratio = 0 THEN asked = {} /\ UNCHANGED known
     ELSE /\ \E s \in Choices(det, Matches(det, turned), ages) : asked = {i \in s : Expectable(i, turned)}
          /\ known' = Seen(ages)
  /\ order \in Orders({i \in asked : Arrives(i, flow)})
  /\ m = Matches(det, turned) \cup {<<Len(det) + k, order[k]>> : k \in DOMAIN order}
  /\ last' = det \o [k \in DOMAIN order |-> Moved(order[k], flow)]
  /\ flown' = {Len(det) + k : k \in DOMAIN order}
  /\ UNCHANGED set
First(det) == last' = det /\ flown' = {} /\ UNCHANGED <<set, known>>
\* Identifiers are given by somebody else, between two frames.
Identify(ids) == last' = [i \in DOMAIN last |-> [last[i] EXCEPT !.t = ids[i]]] /\ UNCHANGED <<set, flown, known>>
CanSet(ratio, most) == ratio >= 0 /\ ratio <= 4 /\ most > 0
=============================================================================
