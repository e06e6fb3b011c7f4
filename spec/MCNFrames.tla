----------------------------- MODULE MCNFrames ------------------------------
EXTENDS NFrames, TLC
CONSTANTS MaxFrames, MaxTime, MaxSteps
VARIABLE last
Rigs == <<<<1, 2>>, <<3, 2>>>>
Cams(c) == IF c = 3 THEN 1 ELSE c
Class(r) == IF r = 0 THEN 0 ELSE 1
New(cam, t) == [time |-> t, valid |-> TRUE, cam |-> cam, id |-> 0, ch |-> 0, img |-> 0, kp |-> -1, shape |-> 0]
Init == nf = [n \in Obj |-> None] /\ frame = <<>> /\ last = <<"start">>
Room(k) == Len(frame) + k <= MaxFrames
On(n) == nf[n].on
Next ==
  \/ \E n \in Obj, r \in 0..Len(Rigs) : Put(n, Made(1, r, 2)) /\ UNCHANGED frame /\ last' = <<"new", n>>
  \/ Room(1) /\ (\E c \in 1..3, t \in 0..MaxTime : frame' = Append(frame, New(c, t))) /\ UNCHANGED nf /\ last' = <<"frame">>
  \/ \E o \in DOMAIN frame : frame' = [frame EXCEPT ![o].ch = 1 - @] /\ UNCHANGED nf /\ last' = <<"change", o>>
  \/ \E n \in Obj : On(n) /\ \E i \in 1..2, o \in DOMAIN frame : CanSet(n, i, o) /\ SetSlot(n, i, o) /\ UNCHANGED frame /\ last' = <<"set", n>>
  \/ \E n \in Obj : On(n) /\ \E i \in 1..2 : SetSlot(n, i, 0) /\ UNCHANGED frame /\ last' = <<"unset", n>>
  \/ \E n, g \in Obj : On(n) /\ Room(Len(Sources(n))) /\ Copy(n, g) /\ last' = <<"copy", n, g>>
  \/ \E n \in Obj : On(n) /\ \E r \in 1..Len(Rigs) : CanSetRig(n, r) /\ SetRig(n, r) /\ last' = <<"rig", n>>
Spec == Init /\ [][Next]_<<nf, frame, last>>
Bounded == TLCGet("level") <= MaxSteps

CopyEqual == last[1] = "copy" => Equal(nf[last[2]], nf[last[3]]) /\ EqualButCams(nf[last[2]], nf[last[3]])
\* The copy's frames are in no other object.
Owned == last[1] = "copy" /\ last[2] # last[3] => \A n \in Obj \ {last[3]} : On(n) => Stored(nf[n]) \cap Stored(nf[last[3]]) = {}
\* The copy of an object whose slots share a frame has a frame per slot.
Separate == last[1] = "copy" /\ last[2] # last[3] => LET x == nf[last[3]] IN \A i, j \in DOMAIN x.slots : x.slots[i] # 0 /\ x.slots[i] = x.slots[j] => i = j
Equivalence == \A n, g \in Obj : On(n) /\ On(g) =>
  /\ Equal(nf[n], nf[n]) /\ (Equal(nf[n], nf[g]) <=> Equal(nf[g], nf[n]))
  /\ (Equal(nf[n], nf[g]) => EqualButCams(nf[n], nf[g]) /\ Complete(nf[n]) = Complete(nf[g]) /\ Times(nf[n]) = Times(nf[g]))
TimesOrdered == \A n \in Obj : On(n) => \A a, b \in -1..MaxTime : Times(nf[n]) # {} /\ IsMin(nf[n], a) /\ IsMax(nf[n], b) => a <= b /\ (b = -1 => a = -1)
\* Changing one object's slots leaves the other objects' alone.
Local == [][\A n \in Obj : nf'[n] # nf[n] => n \in {last'[k] : k \in 2..Len(last')}]_<<nf, frame, last>>
=============================================================================
