------------------------------- MODULE MCGrid -------------------------------
(* Small instance: what follows from the operations of Grid.               *)
EXTENDS Grid
CONSTANTS MaxPts, Limit, Dist, Weights, Mode
VARIABLE n     \* identifier of the next point
Dim == [ru |-> 4, rv |-> 2, cu |-> 2, cv |-> 2]
Init == pts = {} /\ dim = Dim /\ n = 1
New == {<<n, u, v, w>> : u \in 0..3, v \in 0..1, w \in Weights}
Subsets(S) == SUBSET S
Next ==
  /\ UNCHANGED dim
  /\ \/ /\ n <= MaxPts /\ n' = n + 1
        /\ \E p \in New : \/ "limit" \in Mode /\ \E b \in BOOLEAN : AddIfRoom(p, Limit, b)
                          \/ "dist" \in Mode /\ AddSeparated(p, Dist)
                          \/ "any" \in Mode /\ Add(p)
     \/ UNCHANGED n /\ "thin" \in Mode /\ \E R \in Subsets(pts), k \in 1..2 : ThinTo(R, k) /\ pts' = R
     \/ UNCHANGED n /\ "thin" \in Mode /\ \E R \in Subsets(pts), k \in 1..3 : ReduceTo(R, k) /\ pts' = R
     \/ UNCHANGED n /\ "any" \in Mode /\ \E w \in Weights : SetWeights(w)
Spec == Init /\ [][Next]_<<vars, n>>
WithinLimit == Mode = {"limit", "thin"} => \A c \in Cells : Cardinality(CellPts(pts, c)) <= Limit
Separated == Mode = {"dist", "thin"} => \A p, q \in pts : p # q => ~Near(p, q, Dist)
\* The operations are total: whatever the state, adding succeeds in exactly one way of the return value, and thinning
\* to any positive size is possible.
Total == \A p \in New :
  /\ CanAddSeparated(Dist)
  /\ \A k \in 1..3 : (\E R \in Subsets(pts) : ThinTo(R, k)) /\ (\E R \in Subsets(pts) : ReduceTo(R, k))
\* Adding never loses the strongest point of all except to an equally strong or stronger one.
StrongestStays == [][n' # n => \A p \in StrongestOf(pts) : \E q \in pts' : W(q) >= W(p)]_<<vars, n>>
\* Reducing one by one, always from a fullest cell its weakest point, ends in a set that ReduceTo allows.
RECURSIVE OneByOne(_, _)
OneByOne(S, k) ==
  IF Cardinality(S) <= k THEN {S}
  ELSE LET full == {c \in Cells : \A d \in Cells : Cardinality(CellPts(S, c)) >= Cardinality(CellPts(S, d))}
       IN UNION {OneByOne(S \ {q}, k) : q \in UNION {WeakestOf(CellPts(S, c)) : c \in full}}
ReduceIsOneByOne == \A k \in 1..3 : OneByOne(pts, k) = {R \in Subsets(pts) : ReduceTo(R, k)}
=============================================================================
