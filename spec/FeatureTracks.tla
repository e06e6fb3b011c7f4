---------------------------- MODULE FeatureTracks ----------------------------
(* Feature tracks: sequences of references to keypoints of multi-camera       *)
(* frames.  Keypoints belong to the frames; tracks refer to them.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Slot, Whole      \* Whole: the multi-camera frames
VARIABLES point,   \* [Whole -> sequence of frames: the keypoints [x, y, d] in each, or <<>> where there is no frame]
          name,    \* [Whole -> identifier]
         label,   \* [Whole -> sequence of the identifiers of its frames]
          track    \* [Slot -> None or [id, keys]]: keys <<n, f, i>>, frames and keypoints numbered from 1
None == [on |-> FALSE]
Empty(id) == [on |-> TRUE, id |-> id, keys |-> <<>>]
Exists(k) == k[1] \in Whole /\ k[2] \in DOMAIN point[k[1]] /\ k[3] \in DOMAIN point[k[1]][k[2]]
At(k) == point[k[1]][k[2]][k[3]]
Put(s, t) == track' = [track EXCEPT ![s] = t] /\ UNCHANGED <<point, name, label>>
New(s, id) == Put(s, Empty(id))
Add(s, k) == Put(s, [track[s] EXCEPT !.keys = Append(@, k)])
Drop(s) == track[s].keys # <<>> /\ Put(s, [track[s] EXCEPT !.keys = SubSeq(@, 1, Len(@) - 1)])
Copy(s, g) == Put(g, track[s])
Change(k, p) == point' = [point EXCEPT ![k[1]][k[2]][k[3]] = p] /\ UNCHANGED <<track, name, label>>
Rename(n, id) == name' = [name EXCEPT ![n] = id] /\ UNCHANGED <<track, point, label>>
\* Another frame in place of frame f: references are to whatever is there.
Renew(n, f, points, id) == /\ point' = [point EXCEPT ![n][f] = points] /\ label' = [label EXCEPT ![n][f] = id]
                           /\ UNCHANGED <<track, name>>

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
\* The squared diagonal of the box around the keypoints of a track.
Diagonal(keys) == LET X == {At(keys[i]).x : i \in DOMAIN keys}  Y == {At(keys[i]).y : i \in DOMAIN keys}
                      dx == Most(X) - Least(X)  dy == Most(Y) - Least(Y) IN dx * dx + dy * dy
=============================================================================
