-------------------------------- MODULE MCGyro --------------------------------
(* Points that stay where they are, detected or not from frame to frame.       *)
EXTENDS Gyro, TLC
CONSTANTS Points, Length, Ratio, Most, Least, Drops
VARIABLES n,       \* frames so far
          turn,    \* whose turn: "track", "identify"
          pairs,   \* matches of the last frame with the one before
          next,    \* the next identifier
          runs     \* per keypoint of the last frame: [flown: frames in a row it has been flown, seen: matches since it was first seen or flown]
vars == <<set, last, flown, known, n, turn, pairs, next, runs>>
At(p) == [f |-> p, x |-> 100 * p, y |-> 100, n |-> p, u |-> 10, t |-> -1]
InOrder(s) == [k \in 1..Cardinality(s) |-> CHOOSE p \in s : Cardinality({q \in s : q <= p}) = k]
Frames == {[k \in DOMAIN InOrder(s) |-> At(InOrder(s)[k])] : s \in SUBSET (1..Points)}
Start(det) == [k \in DOMAIN det |-> [flown |-> 0, seen |-> 0]]
Init == /\ set = [ratio |-> Ratio, most |-> Most, least |-> Least, border |-> 10, w |-> 1000, h |-> 200]
        /\ \E det \in Frames : last = det /\ runs = Start(det)
        /\ flown = {} /\ known = Nothing /\ n = 1 /\ turn = "track" /\ pairs = {} /\ next = 0
Old(a) == {p[2] : p \in {p \in pairs' : p[1] = a}}
Flow(i, ok) == [ok |-> ok, x |-> last[i].x, y |-> last[i].y, f |-> last[i].f]
Follow == /\ turn = "track" /\ n < Length /\ n' = n + 1 /\ turn' = "identify"
          /\ \E det \in Frames, ok \in SUBSET (DOMAIN last), asked \in SUBSET (DOMAIN last) :
             LET flow == [i \in DOMAIN last |-> Flow(i, i \in ok)] IN
             \E order \in Orders({i \in asked : Arrives(i, flow)}) :
               LET m == Matches(det, 0) \cup {<<Len(det) + k, order[k]>> : k \in DOMAIN order} IN
               Track(det, flow, 0, asked, order, m) /\ pairs' = m
          /\ runs' = [a \in DOMAIN last' |-> IF Old(a) = {} THEN [flown |-> 0, seen |-> 0] ELSE
                       LET i == CHOOSE i \in Old(a) : TRUE IN
                       IF a \in flown' THEN [flown |-> runs[i].flown + 1, seen |-> runs[i].seen] ELSE [flown |-> 0, seen |-> IF i \in flown THEN 1 ELSE runs[i].seen + 1]]
          /\ UNCHANGED next
\* Who applies the matches gives identifiers; some may be left out.
Name == /\ turn = "identify" /\ turn' = "track"
        /\ \E out \in IF Drops THEN SUBSET pairs ELSE {{}} :
           LET use == pairs \ out
               Its(a) == LET i == CHOOSE i \in DOMAIN known.ids : <<a, i>> \in use IN known.ids[i]
               new == {a \in DOMAIN last : (\E i \in DOMAIN known.ids : <<a, i>> \in use) /\ Its(a) = -1}
               ids == [a \in DOMAIN last |-> IF a \in new THEN next + Cardinality({b \in new : b < a})
                         ELSE IF \E i \in DOMAIN known.ids : <<a, i>> \in use THEN Its(a) ELSE -1] IN
           /\ Identify(ids) /\ next' = next + Cardinality(new)
           /\ runs' = [a \in DOMAIN last |-> IF \E i \in DOMAIN known.ids : <<a, i>> \in use THEN runs[a] ELSE [flown |-> 0, seen |-> 0]]
        /\ UNCHANGED <<n, pairs>>
Next == Follow \/ Name
Spec == Init /\ [][Next]_vars

OneToOne == \A p, q \in pairs : p # q => p[1] # q[1] /\ p[2] # q[2]
\* Flow never adds more than its share, and never follows a keypoint for longer than it may.
Share == Cardinality(flown) * 4 <= (Len(last) - Cardinality(flown)) * Ratio
\* A frame of a new track is not counted.
NotTooLong == \A a \in flown : runs[a].flown <= Most + (IF Least = 0 \/ Drops THEN 1 ELSE 0)
Deserved == [][turn = "track" /\ turn' = "identify" => \A p \in pairs' : (p[1] \in flown' /\ p[2] \notin flown) => runs[p[2]].seen >= Least]_vars
\* Flown keypoints come last; a point is in a frame once.
AtEnd == \A a \in flown, b \in DOMAIN last \ flown : b < a
Once == \A a, b \in DOMAIN last : a # b => last[a].f # last[b].f
\* Nobody who was followed by flow deserved it less than somebody unmatched who was not.
Ages == known = Nothing \/ \A j \in DOMAIN known.ages : known.ages[j] >= 0
=============================================================================
