------------------------------ MODULE MCFrames ------------------------------
(* Clients that supply each kind of data for the keypoints they add.  Data *)
(* of keypoint k is the number k, so that alignment can be read off.       *)
EXTENDS Frames, TLC, FiniteSetsExt
CONSTANTS TypeSet, MaxKeypoints, MaxBlocks
VARIABLES made,   \* keypoints supplied so far
          last
Chans == {"score", Track}
Default == -1
Init == fr = [f \in Frame |-> Fresh] /\ made = 0 /\ last = <<"start">>
\* A block of n keypoints of one type, with data in the channels cs; some of them untracked.
Next ==
  \E f \in Frame :
    \/ \E n \in 0..2, t \in TypeSet, cs \in SUBSET Chans, lost \in SUBSET (1..2) :
         /\ Consistent(f) /\ made + n <= MaxKeypoints /\ Len(fr[f].blk) < MaxBlocks
         /\ LET new == [i \in 1..n |-> made + i] IN
            LET data(c) == [i \in 1..n |-> IF c = Track /\ i \in lost THEN -1 ELSE new[i]] IN
            LET y == [fr[f] EXCEPT !.ch = FoldSet(LAMBDA c, ch : Extended(ch, c, data(c), Default), Extended(@, Meas, new, Default), cs)] IN
            Change(f, WithBlocks(y, Append(fr[f].blk, [r |-> 1, v |-> new]), Append(fr[f].typ, t)))
         /\ made' = made + n /\ last' = <<"add", f>>
    \/ CanDiscard(f) /\ Discard(f) /\ last' = <<"discard", f, fr[f]>> /\ UNCHANGED made
    \/ \E g \in Frame : f # g /\ Copy(f, g) /\ last' = <<"copy", f, g>> /\ UNCHANGED made
    \/ \E g \in Frame : f # g /\ CanMove(f) /\ fr[g].blk = <<>> /\ fr[g].ch = <<>>
         /\ Change(g, [fr[g] EXCEPT !.on = TRUE, !.ch = Put(@, Meas, Get(f, Meas)), !.blk = fr[f].blk, !.typed = TRUE, !.typ = fr[f].typ])
         /\ last' = <<"move", f, g>> /\ UNCHANGED made
Spec == Init /\ [][Next]_<<fr, made, last>>

\* The entries at one index are those of one keypoint.
Aligned == \A f \in Frame : Has(f, Meas) =>
  /\ Descriptors(f) = Get(f, Meas)
  /\ \A c \in DOMAIN fr[f].ch : \A i \in DOMAIN Get(f, c) : i <= Num(f) /\ Get(f, c)[i] \in {Default, Get(f, Meas)[i]}
\* Types occupy disjoint ranges, in order, that together are all keypoints; data by type is what is at these indices.
Partition == \A f \in Frame : Has(f, Meas) /\ (\A i, j \in DOMAIN fr[f].typ : fr[f].typ[i] = fr[f].typ[j] => i = j) =>
  /\ Num(f) = FoldLeft(LAMBDA a, t : a + Size(f, t), 0, fr[f].typ)
  /\ \A k \in DOMAIN fr[f].typ : LET t == fr[f].typ[k] IN
       /\ Start(f, t) = IF k = 1 THEN 0 ELSE Start(f, fr[f].typ[k - 1]) + Size(f, fr[f].typ[k - 1])
       /\ CanSelect(f, Meas, t) /\ Select(f, Meas, t) = fr[f].blk[k].v
       /\ \A i \in 1..Size(f, t) : Types(fr[f].blk, fr[f].typ)[Start(f, t) + i] = t
\* Exactly the tracked keypoints remain, in order.
OnlyTracked == last[1] = "discard" =>
  /\ \A i \in DOMAIN Get(last[2], Track) : Get(last[2], Track)[i] >= 0
  /\ Get(last[2], Track) = SelectSeq(last[3].ch[Track], LAMBDA x : x >= 0)
  /\ fr[last[2]].typ = last[3].typ
CopiesEqual == last[1] = "copy" => Same(fr[last[2]], fr[last[3]])
\* Nothing done to one frame changes another.
Local == [][\A f \in Frame : fr'[f] # fr[f] => f = last'[2] \/ (last'[1] \in {"copy", "move"} /\ f = last'[3])]_<<fr, made, last>>
=============================================================================
