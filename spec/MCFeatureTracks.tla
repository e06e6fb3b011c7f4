--------------------------- MODULE MCFeatureTracks ---------------------------
(* A few tracks over a few keypoints.                                         *)
EXTENDS FeatureTracks, TLC
CONSTANTS Longest, MaxSteps
Places == {[x |-> -2, y |-> 1, d |-> 0], [x |-> 1, y |-> -1, d |-> 0]}
Init == /\ point = [n \in Whole |-> IF n = 0 THEN <<<<[x |-> -2, y |-> 1, d |-> 0], [x |-> 3, y |-> 0, d |-> 0]>>, <<>>>> ELSE <<<<>>, <<[x |-> 0, y |-> -3, d |-> 0]>>>>]
        /\ name = [n \in Whole |-> n + 1] /\ label = [n \in Whole |-> <<0, 0>>] /\ track = [s \in Slot |-> None]
Keys == {k \in Whole \X (1..2) \X (1..2) : Exists(k)}
Next == \/ \E s \in Slot, id \in 0..1 : New(s, id)
        \/ \E s \in Slot : track[s].on /\ \E k \in Keys : Len(track[s].keys) < Longest /\ Add(s, k)
        \/ \E s \in Slot : track[s].on /\ Drop(s)
        \/ \E s, g \in Slot : track[s].on /\ Copy(s, g)
        \/ \E k \in Keys, p \in Places : Change(k, p)
        \/ Renew(0, 1, <<[x |-> 1, y |-> 1, d |-> 1], [x |-> -3, y |-> 4, d |-> 1]>>, 1)
Bounded == TLCGet("level") <= MaxSteps
Spec == Init /\ [][Next]_<<point, name, label, track>>
Live == {s \in Slot : track[s].on}
Refer == \A s \in Live : \A i \in DOMAIN track[s].keys : Exists(track[s].keys[i])
Extent == \A s \in Live : LET k == track[s].keys IN k # <<>> =>
  /\ Diagonal(k) >= 0
  /\ Cardinality({<<At(k[i]).x, At(k[i]).y>> : i \in DOMAIN k}) = 1 <=> Diagonal(k) = 0
  /\ \A i, j \in DOMAIN k : LET p == At(k[i])  q == At(k[j]) IN (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y) <= Diagonal(k)
  /\ Len(k) > 1 => Diagonal(SubSeq(k, 1, Len(k) - 1)) <= Diagonal(k)
\* Tracks grow and shrink at the end, one keypoint at a time, and never reorder; other tracks do not change.
AtEnd == [][\A s \in Slot : track[s].on /\ track'[s].on /\ track[s].keys # track'[s].keys =>
  \/ IsPrefix(track[s].keys, track'[s].keys) /\ Len(track'[s].keys) = Len(track[s].keys) + 1
  \/ IsPrefix(track'[s].keys, track[s].keys) /\ Len(track[s].keys) = Len(track'[s].keys) + 1
  \/ track'[s].keys = <<>>
  \/ \E g \in Slot : track'[s] = track[g]]_<<point, name, label, track>>
=============================================================================
