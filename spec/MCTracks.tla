------------------------------ MODULE MCTracks ------------------------------
(* Trackers on threads of their own follow keypoints through frames; each  *)
(* takes its identifiers one at a time from the counter they share.        *)
(* A tracker sees the same points in every frame, in any order; a match    *)
(* relates two sightings of one point in consecutive frames.               *)
EXTENDS Tracks, TLC
CONSTANTS Tracker, Points, Length
VARIABLES next,    \* the counter
          sight,   \* tracker -> per frame, the point seen at each position
          step,    \* tracker -> [m: the matches being applied, new: identifiers taken for them]
          link     \* tracker -> set of <<frame, position in it, position in the next one>>
vars == <<frame, issued, given, next, sight, step, link>>
F(t, k) == t * Length + k
Empty == [kp |-> <<>>, has |-> FALSE, track |-> <<>>, full |-> 0, unc |-> <<>>]
Orders == {p \in [1..Points -> 1..Points] : \A i, j \in 1..Points : i # j => p[i] # p[j]}
None == [m |-> <<>>, new |-> <<>>, on |-> FALSE]
Init == /\ frame = [f \in Frame |-> Empty] /\ issued = {} /\ given = {} /\ next = 0
        /\ sight = [t \in Tracker |-> <<>>] /\ step = [t \in Tracker |-> None] /\ link = [t \in Tracker |-> {}]
N(t) == Len(sight[t])
See(t) == /\ ~step[t].on /\ N(t) < Length
          /\ \E p \in Orders : sight' = [sight EXCEPT ![t] = Append(@, p)]
          /\ frame' = [frame EXCEPT ![F(t, N(t))] = [Empty EXCEPT !.kp = [i \in 1..Points |-> i]]]
          /\ IF N(t) = 0 THEN UNCHANGED step ELSE
             \E s \in SUBSET (1..Points) :   \* the points that are matched, in order
               step' = [step EXCEPT ![t] = [on |-> TRUE, new |-> <<>>,
                 m |-> [x \in 1..Cardinality(s) |-> LET q == CHOOSE q \in s : Cardinality({r \in s : r <= q}) = x IN
                          <<CHOOSE i \in 1..Points : sight[t][N(t)][i] = q, CHOOSE i \in 1..Points : sight'[t][N(t) + 1][i] = q>>]]]
          /\ UNCHANGED <<issued, given, next, link>>
A(t) == frame[F(t, N(t) - 2)]
B(t) == frame[F(t, N(t) - 1)]
Missing(t) == Starts(step[t].m, A(t), B(t)) \ DOMAIN step[t].new
Take(t) == /\ step[t].on /\ Missing(t) # {}
           /\ LET x == CHOOSE x \in Missing(t) : \A y \in Missing(t) : x <= y IN
              step' = [step EXCEPT ![t].new = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN next ELSE @[y]]]
           /\ next' = next + 1 /\ UNCHANGED <<frame, issued, given, sight, link>>
Finish(t) == /\ step[t].on /\ Missing(t) = {}
             /\ Assert(CanApply(step[t].m, A(t), B(t)), "refused")
             /\ Apply(F(t, N(t) - 2), F(t, N(t) - 1), step[t].m, step[t].new)
             /\ link' = [link EXCEPT ![t] = @ \cup {<<N(t) - 2, step[t].m[x][1], step[t].m[x][2]>> : x \in DOMAIN step[t].m}]
             /\ step' = [step EXCEPT ![t] = None] /\ UNCHANGED <<given, next, sight>>
Next == \E t \in Tracker : See(t) \/ Take(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars

Id(t, k, i) == Channel(frame[F(t, k)])[i]
Idle(t) == ~step[t].on
\* Keypoints of a frame that have identifiers have different ones; so have keypoints of different trackers.
Distinct == \A t, u \in Tracker : \A k \in 0..(N(t) - 1), j \in 0..(N(u) - 1) : \A i, p \in 1..Points :
  (t # u \/ (k = j /\ i # p)) /\ Id(t, k, i) >= 0 => Id(t, k, i) # Id(u, j, p)
\* An identifier belongs to one point, and connects exactly the sightings that matches connect.
OnePoint == \A t \in Tracker : \A k, j \in 0..(N(t) - 1), i, p \in 1..Points :
  Id(t, k, i) >= 0 /\ Id(t, k, i) = Id(t, j, p) => sight[t][k + 1][i] = sight[t][j + 1][p]
Linked == \A t \in Tracker : \A x \in link[t] : Id(t, x[1], x[2]) = Id(t, x[1] + 1, x[3]) /\ Id(t, x[1], x[2]) >= 0
UnlinkedUntracked == \A t \in Tracker : \A k \in 0..(N(t) - 1), i \in 1..Points :
  (Idle(t) \/ k < N(t) - 2) /\ Id(t, k, i) >= 0 => \E x \in link[t] : (x[1] = k /\ x[2] = i) \/ (x[1] = k - 1 /\ x[3] = i)
\* A track that was interrupted does not go on under its old identifier.
Gap == \A t \in Tracker : \A k \in 0..(N(t) - 3), i, p \in 1..Points :
  Id(t, k, i) >= 0 /\ Id(t, k, i) = Id(t, k + 2, p) => \E q \in 1..Points : Id(t, k + 1, q) = Id(t, k, i)
=============================================================================
