------------------------------- MODULE Targets -------------------------------
(* Calibration targets: grids of square tags with four points each, what is   *)
(* observed of them, and which detected tags make an observation.             *)
(* Lengths are in eighths of a meter, pixels in quarters.                     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE target
None == [on |-> FALSE]
(* Points are numbered row by row from the lower left; two rows and columns per tag. *)
Rows(t) == 2 * t.rows
Cols(t) == 2 * t.cols
Num(t) == Rows(t) * Cols(t)
Place(k, size, gap) == (k \div 2) * (size + gap) + (k % 2) * size
RowOf(t, i) == i \div Cols(t)
ColOf(t, i) == i % Cols(t)
At(t, r, c) == Cols(t) * r + c
Points(rows, cols, size, gap) == LET n == 2 * cols IN
  [i \in 1..(4 * rows * cols) |-> <<Place((i - 1) % n, size, gap), Place((i - 1) \div n, size, gap), 0>>]
CanMake(rows, cols, size, gap) == rows > 0 /\ cols > 0 /\ size > 0 /\ gap > 0
Make(rows, cols, size, gap) == [on |-> TRUE, rows |-> rows, cols |-> cols, size |-> size, gap |-> gap, pts |-> Points(rows, cols, size, gap)]
Abs(x) == IF x < 0 THEN -x ELSE x
Width(t) == Abs(t.pts[At(t, 0, Cols(t) - 1) + 1][1] - t.pts[1][1])
Height(t) == Abs(t.pts[At(t, Rows(t) - 1, 0) + 1][2] - t.pts[1][2])
Move(i, p) == target' = [target EXCEPT !.pts[i] = p]

(* A tag's corners, counterclockwise from the lower left, as points of the target. *)
Corner(t, tag, k) == LET r == 2 * (tag \div t.cols)  c == 2 * (tag % t.cols) IN
  CASE k = 1 -> At(t, r, c) [] k = 2 -> At(t, r, c + 1) [] k = 3 -> At(t, r + 1, c + 1) [] k = 4 -> At(t, r + 1, c)

(* Detection; s has the settings, tags are [id, good, at: four places]. *)
Within(s, p) == p[1] >= s.border /\ p[1] <= 4 * s.w - s.border /\ p[2] >= s.border /\ p[2] <= 4 * s.h - s.border
Usable(t, s, g) == g.good /\ g.id < t.rows * t.cols /\ \A k \in 1..4 : Within(s, g.at[k])
Chosen(t, s, tags) == {i \in DOMAIN tags : Usable(t, s, tags[i])}
Twice(tags, I) == \E i, j \in I : i # j /\ tags[i].id = tags[j].id
Detected(t, s, tags) == LET I == Chosen(t, s, tags) IN Cardinality(I) >= s.least /\ ~Twice(tags, I)
\* How a corner is moved by the refinement, if there is one.
Shift(s, p) == IF s.refine THEN LET k == (p[1] + 3 * p[2]) % 5 IN <<s.shifts[2 * k + 1], s.shifts[2 * k + 2]>> ELSE <<0, 0>>
Near(s, d) == d[1] * d[1] + d[2] * d[2] <= s.far
Seen(t, s, tags) ==
  {<<Corner(t, tags[i].id, k), <<tags[i].at[k][1] + Shift(s, tags[i].at[k])[1], tags[i].at[k][2] + Shift(s, tags[i].at[k])[2]>>>> :
     <<i, k>> \in {x \in Chosen(t, s, tags) \X (1..4) : Near(s, Shift(s, tags[x[1]].at[x[2]]))}}
=============================================================================
