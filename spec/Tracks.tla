------------------------------- MODULE Tracks -------------------------------
(* Track identifiers of keypoints, and how matches propagate them.         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Frame
VARIABLES frame,   \* [kp: keypoints, has: is there an identifier channel, track: identifiers, negative: untracked, full, unc]
          issued,  \* identifiers given out since the counter was last reset
          given    \* the same for counters of clients: [first, ids]

Untracked(n) == [i \in 1..n |-> -1]
\* The identifier channel, made if there is none.
Channel(f) == IF f.has THEN f.track ELSE Untracked(Len(f.kp))
WithChannel(f) == [f EXCEPT !.has = TRUE, !.track = Channel(f)]

\* Matches: pairs <<i, k>> of positions (from 1) in frames a and b.
OneToOne(m) == \A x, y \in DOMAIN m : x # y => m[x][1] # m[y][1] /\ m[x][2] # m[y][2]
Exist(m, a, b) == \A x \in DOMAIN m : m[x][1] \in DOMAIN Channel(a) /\ m[x][2] \in DOMAIN Channel(b)
Conflict(p, a, b) == LET s == Channel(a)[p[1]]  t == Channel(b)[p[2]] IN s >= 0 /\ t >= 0 /\ s # t
CanApply(m, a, b) == Exist(m, a, b) /\ OneToOne(m) /\ \A x \in DOMAIN m : ~Conflict(m[x], a, b)
Starts(m, a, b) == {x \in DOMAIN m : Channel(a)[m[x][1]] < 0 /\ Channel(b)[m[x][2]] < 0}
\* What a match makes both identifiers; new gives the identifiers of matches that start tracks.
Joined(m, a, b, new, x) ==
  LET s == Channel(a)[m[x][1]]  t == Channel(b)[m[x][2]] IN IF s >= 0 THEN s ELSE IF t >= 0 THEN t ELSE new[x]
Applied(m, a, b, new, side) ==
  LET c == Channel(IF side = 1 THEN a ELSE b) IN
  [i \in DOMAIN c |-> IF \E x \in DOMAIN m : m[x][side] = i THEN Joined(m, a, b, new, CHOOSE x \in DOMAIN m : m[x][side] = i) ELSE c[i]]
Fresh(new) == /\ \A x \in DOMAIN new : new[x] >= 0 /\ new[x] \notin issued
              /\ \A x, y \in DOMAIN new : x # y => new[x] # new[y]
Apply(f, g, m, new) ==
  /\ DOMAIN new = Starts(m, frame[f], frame[g]) /\ Fresh(new)
  /\ issued' = issued \cup {new[x] : x \in DOMAIN new}
  /\ frame' = [frame EXCEPT ![f] = [@ EXCEPT !.has = TRUE, !.track = Applied(m, frame[f], frame[g], new, 1)],
                            ![g] = [@ EXCEPT !.has = TRUE, !.track = Applied(m, frame[f], frame[g], new, 2)]]
Reset == issued' = {} /\ UNCHANGED frame

(* Keypoints from a detector. *)
Matching(kp, unc, rows, type) == unc > 0 /\ rows = Len(kp) /\ type = 0
CanInsert(f, kp, unc, rows, type) == Matching(kp, unc, rows, type) /\ f.kp = <<>> /\ f.track = <<>>
Inserted(f, kp, unc) == [f EXCEPT !.kp = kp, !.has = TRUE, !.track = Untracked(Len(kp)), !.full = 1, !.unc = [i \in DOMAIN kp |-> unc]]
CanAppend(f, kp, unc, rows, type) == Matching(kp, unc, rows, type) /\ f.full = 1 /\ f.has
Appended(f, kp, unc) ==
  [f EXCEPT !.kp = @ \o kp, !.track = @ \o Untracked(Len(kp)), !.unc = @ \o [i \in DOMAIN kp |-> unc]]
=============================================================================
