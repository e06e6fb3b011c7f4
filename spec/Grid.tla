-------------------------------- MODULE Grid --------------------------------
(* Occupancy grid: a set of weighted points, each in the cell containing   *)
(* its coordinates.  A point is <<id, u, v, weight>>; coordinates and      *)
(* lengths are integers (multiples of a fixed unit).                       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES pts,   \* the stored points
          dim    \* [ru, rv: extent, cu, cv: cell size]

vars == <<pts, dim>>
U(p) == p[2]
V(p) == p[3]
W(p) == p[4]

ValidDim(d) == d.ru > 0 /\ d.rv > 0 /\ d.ru >= d.cu /\ d.rv >= d.cv
InRange(u, v) == u >= 0 /\ v >= 0 /\ u < dim.ru /\ v < dim.rv
CellOf(u, v) == <<u \div dim.cu, v \div dim.cv>>
Cells == (0..((dim.ru - 1) \div dim.cu)) \X (0..((dim.rv - 1) \div dim.cv))
CellPts(S, c) == {p \in S : CellOf(U(p), V(p)) = c}
Near(p, q, d) == (U(p) - U(q)) * (U(p) - U(q)) + (V(p) - V(q)) * (V(p) - V(q)) < d * d

Add(p) == pts' = pts \cup {p}

\* With at most m points per cell: a full cell's weakest point gives way to a stronger one.
WeakestOf(S) == {q \in S : \A r \in S : W(q) <= W(r)}
StrongestOf(S) == {q \in S : \A r \in S : W(q) >= W(r)}
AddIfRoom(p, m, stored) ==
  LET c == CellPts(pts, CellOf(U(p), V(p))) IN
    IF Cardinality(c) < m THEN stored /\ Add(p)
    ELSE IF \E q \in c : W(q) < W(p)
         THEN stored /\ \E q \in WeakestOf(c) : pts' = (pts \ {q}) \cup {p}
         ELSE ~stored /\ pts' = pts

\* Of the points closer than d to the new one and itself only a strongest one stays.
CanAddSeparated(d) == d > 0 /\ d <= dim.cu /\ d <= dim.cv
AddSeparated(p, d) ==
  LET rivals == {q \in pts : Near(p, q, d)} \cup {p}
  IN \E k \in StrongestOf(rivals) : pts' = (pts \ rivals) \cup {k}

SetWeights(w) == pts' = {<<p[1], p[2], p[3], w>> : p \in pts}

\* Every cell keeps its m strongest points.
StrongestKept(S, R) == \A p \in R, q \in S \ R : CellOf(U(p), V(p)) = CellOf(U(q), V(q)) => W(p) >= W(q)
ThinTo(R, m) ==
  /\ R \subseteq pts
  /\ \A c \in Cells : LET n == Cardinality(CellPts(pts, c)) IN Cardinality(CellPts(R, c)) = (IF n > m THEN m ELSE n)
  /\ StrongestKept(pts, R)
\* At most n points stay, taken away one by one, always the weakest of a fullest cell: a cell that lost points
\* is at most one below the fullest remaining one.
ReduceTo(R, n) ==
  /\ R \subseteq pts
  /\ Cardinality(R) = (IF Cardinality(pts) > n THEN n ELSE Cardinality(pts))
  /\ StrongestKept(pts, R)
  /\ \A c, d \in Cells : Cardinality(CellPts(R, c)) < Cardinality(CellPts(pts, c))
                         => Cardinality(CellPts(R, c)) >= Cardinality(CellPts(R, d)) - 1

\* Mask: full cells are covered; discs of radius r are drawn around the points.  x (column) and y (row) are pixels of
\* `unit` length; the rim of a disc is left open.
FullAt(y, x, m, unit) == Cardinality(CellPts(pts, CellOf(y * unit, x * unit))) >= m
DistSq(p, y, x, unit) == ((U(p) \div unit) - y) * ((U(p) \div unit) - y) + ((V(p) \div unit) - x) * ((V(p) \div unit) - x)
MustMask(y, x, r, m, unit) == FullAt(y, x, m, unit) \/ \E p \in pts : DistSq(p, y, x, unit) <= (r - 1) * (r - 1)
MayMask(y, x, r, m, unit)  == FullAt(y, x, m, unit) \/ \E p \in pts : DistSq(p, y, x, unit) <= (r + 1) * (r + 1)
=============================================================================
