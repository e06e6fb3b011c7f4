------------------------------ MODULE MCTargets ------------------------------
(* Small targets, any tags seen: what follows for points and observations.    *)
EXTENDS Targets, TLC
CONSTANTS MaxRows, MaxTags
VARIABLES tags, set
Corners == {<<4, 4>>, <<3, 40>>, <<20, 20>>}
TagAt(id, good, p, q) == [id |-> id, good |-> good, at |-> <<p, <<20, 24>>, <<24, 20>>, q>>]
Settings == {[refine |-> r, far |-> f, least |-> n, border |-> 4, w |-> 10, h |-> 10, shifts |-> <<0, 0, 1, 0, 1, 1, 0, -3, 2, 0>>] : r \in BOOLEAN, f \in {0, 2}, n \in 0..2}
Init == /\ \E r, c \in 1..MaxRows : target = Make(r, c, 4, 3)
        /\ tags = <<>> /\ set \in Settings
Next == Len(tags) < MaxTags /\ \E id \in 0..4, g \in BOOLEAN, p \in Corners : tags' = Append(tags, TagAt(id, g, p, <<8, 9>>)) /\ UNCHANGED <<target, set>>
Spec == Init /\ [][Next]_<<target, tags, set>>

P(i) == target.pts[i + 1]
AllPoints == 0..(Num(target) - 1)
Numbering == \A i \in AllPoints : /\ At(target, RowOf(target, i), ColOf(target, i)) = i
                                  /\ RowOf(target, i) \in 0..(Rows(target) - 1) /\ ColOf(target, i) \in 0..(Cols(target) - 1)
                                  /\ \A j \in AllPoints : (P(i) = P(j)) = (i = j)
\* The corners of a tag are a square of its size; every point is a corner of exactly one tag; neighbours are apart by the gap.
Squares == LET n == target.rows * target.cols IN
  /\ \A g \in 0..(n - 1) : LET c == [k \in 1..4 |-> P(Corner(target, g, k))] IN
       /\ c[2] = <<c[1][1] + 4, c[1][2], 0>> /\ c[3] = <<c[1][1] + 4, c[1][2] + 4, 0>> /\ c[4] = <<c[1][1], c[1][2] + 4, 0>>
       /\ (g + 1) % target.cols # 0 => P(Corner(target, g + 1, 1))[1] = c[2][1] + 3
  /\ \A i \in AllPoints : Cardinality({x \in (0..(n - 1)) \X (1..4) : Corner(target, x[1], x[2]) = i}) = 1
Extent == Width(target) = target.cols * 4 + (target.cols - 1) * 3 /\ Height(target) = target.rows * 4 + (target.rows - 1) * 3
\* No point is seen twice, none of a tag that is not on the target, and tags only ever add to what is seen, or spoil it.
Sound == Detected(target, set, tags) =>
  LET s == Seen(target, set, tags) IN
  /\ \A x, y \in s : x[1] = y[1] => x = y
  /\ \A x \in s : x[1] \in AllPoints
  /\ ~set.refine => Cardinality(s) = 4 * Cardinality(Chosen(target, set, tags))
  /\ Cardinality(s) <= Num(target)
More == [][Detected(target, set, tags) /\ Detected(target, set, tags)' => Seen(target, set, tags) \subseteq Seen(target, set, tags)']_<<target, tags, set>>
=============================================================================
