----------------------------- MODULE GridTrace ------------------------------
(* Recorded operations on a real occupancy grid must be steps of Grid.     *)
EXTENDS Grid, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ pts = {} /\ dim = [ru |-> 0, rv |-> 0, cu |-> 1, cv |-> 1]
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
AsSet(s) == {s[i] : i \in DOMAIN s}

\* The grid afterwards: its total, all its points, and what each cell returns.
Seen == /\ E.total = Cardinality(pts')
        /\ Len(E.all) = Cardinality(pts') /\ AsSet(E.all) = pts'
        /\ \A i \in DOMAIN E.cells : \A j \in DOMAIN E.cells[i] :
             LET c == {p[1] : p \in CellPts(pts', <<i - 1, j - 1>>)}
             IN Len(E.cells[i][j]) = Cardinality(c) /\ AsSet(E.cells[i][j]) = c
        /\ UNCHANGED dim
Now == AsSet(E.all)
Same == UNCHANGED pts

Unit == 4
MaskOk ==
  /\ Len(E.rows) = dim.ru \div Unit
  /\ \A y \in DOMAIN E.rows :
       /\ Len(E.rows[y]) = dim.rv \div Unit
       /\ \A x \in DOMAIN E.rows[y] :
            /\ E.rows[y][x] \in {0, 255}
            /\ MustMask(y - 1, x - 1, E.r, E.m, Unit) => E.rows[y][x] = 0
            /\ E.rows[y][x] = 0 => MayMask(y - 1, x - 1, E.r, E.m, Unit)
Next ==
  \/ /\ Step("new") /\ LET d == [ru |-> E.ru, rv |-> E.rv, cu |-> E.cu, cv |-> E.cv] IN
          /\ E.ok = ValidDim(d)
          /\ IF E.ok THEN dim' = d /\ pts' = {} ELSE UNCHANGED vars
  \/ /\ Step("add") /\ E.ok = InRange(U(E.p), V(E.p)) /\ (IF E.ok THEN Add(E.p) ELSE Same) /\ Seen
  \/ /\ Step("addc") /\ E.ok = (InRange(U(E.p), V(E.p)) /\ E.m > 0)
     /\ (IF E.ok THEN AddIfRoom(E.p, E.m, E.res) ELSE Same) /\ Seen
  \/ /\ Step("addn") /\ E.ok = (InRange(U(E.p), V(E.p)) /\ CanAddSeparated(E.d))
     /\ (IF E.ok THEN AddSeparated(E.p, E.d) ELSE Same) /\ Seen
  \/ /\ Step("weights") /\ SetWeights(E.w) /\ Seen
  \/ /\ Step("reset") /\ pts' = {} /\ Seen
  \/ /\ Step("thin") /\ E.ok = (E.m > 0)
     /\ (IF E.ok THEN ThinTo(Now, E.m) = TRUE /\ pts' = Now /\ E.res = Cardinality(pts) - Cardinality(Now) ELSE Same) /\ Seen
  \/ /\ Step("reduce") /\ E.ok = (E.m > 0)
     /\ (IF E.ok THEN ReduceTo(Now, E.m) = TRUE /\ pts' = Now ELSE Same) /\ Seen
  \/ /\ Step("fullest") /\ Same
     /\ TRUE = (IF pts = {} THEN E.n = 0
         ELSE LET c == CellPts(pts, E.c) IN
                Cardinality(c) = E.n /\ \A d \in Cells : Cardinality(CellPts(pts, d)) <= Cardinality(c)) /\ Seen
  \/ /\ Step("cell") /\ E.ok = InRange(E.u, E.v) /\ Same
     /\ TRUE = (E.ok => AsSet(E.res) = {p[1] : p \in CellPts(pts, CellOf(E.u, E.v))}) /\ Seen
  \/ /\ Step("mask") /\ E.ok = (E.r > 0 /\ E.m > 0) /\ Same
     /\ TRUE = (E.ok => MaskOk)
     /\ Seen

TraceSpec == TraceInit /\ [][Next]_<<vars, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
