------------------------------ MODULE NFrames -------------------------------
(* Multi-camera frames: one slot per camera, holding a frame or nothing.   *)
(* Frames are objects, which slots and clients may share.                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Obj, RigCams, LikeCam(_), LikeRig(_)   \* rig -> its cameras; cameras and rigs of one class are equal
VARIABLES nf,    \* object -> None or [id, rig: 0 if there is none, slots: frame numbers, 0 where there is none]
          frame  \* sequence of all frames ever: [time, valid, cam, id, ch, img, kp, shape]
None == [on |-> FALSE]
Made(id, r, n) == [on |-> TRUE, id |-> id, rig |-> r, slots |-> [i \in 1..n |-> 0]]
Put(n, x) == nf' = [nf EXCEPT ![n] = x]
Stored(x) == {x.slots[i] : i \in DOMAIN x.slots} \ {0}
Complete(x) == \A i \in DOMAIN x.slots : x.slots[i] # 0

CanSet(n, i, o) == i \in DOMAIN nf[n].slots /\ o # 0 /\ (nf[n].rig # 0 => frame[o].cam = RigCams[nf[n].rig][i])
SetSlot(n, i, o) == Put(n, [nf[n] EXCEPT !.slots[i] = o])
CanSetRig(n, r) == r # 0 /\ Len(RigCams[r]) = Len(nf[n].slots)
\* The stored frames get the cameras of their slots.
SetRig(n, r) ==
  /\ Put(n, [nf[n] EXCEPT !.rig = r])
  /\ frame' = [o \in DOMAIN frame |->
                IF \E i \in DOMAIN nf[n].slots : nf[n].slots[i] = o
                THEN [frame[o] EXCEPT !.cam = RigCams[r][CHOOSE i \in DOMAIN nf[n].slots : nf[n].slots[i] = o /\ \A k \in (i + 1)..Len(nf[n].slots) : nf[n].slots[k] # o]]
                ELSE frame[o]]

(* Copies own copies of the frames. *)
Sources(n) == SelectSeq(nf[n].slots, LAMBDA o : o # 0)
Before(n, i) == Cardinality({k \in 1..i : nf[n].slots[k] # 0})
Copy(n, g) ==
  IF n = g THEN UNCHANGED <<nf, frame>>
  ELSE /\ frame' = frame \o [k \in 1..Len(Sources(n)) |-> frame[Sources(n)[k]]]
       /\ Put(g, [nf[n] EXCEPT !.slots = [i \in DOMAIN @ |-> IF @[i] = 0 THEN 0 ELSE Len(frame) + Before(n, i)]])

SameButCam(a, b) == [a EXCEPT !.cam = 0, !.id = 0] = [b EXCEPT !.cam = 0, !.id = 0]
Same(a, b) == SameButCam(a, b) /\ LikeCam(a.cam) = LikeCam(b.cam)
Slots(x, y, F(_, _)) ==
  /\ Len(x.slots) = Len(y.slots)
  /\ \A i \in DOMAIN x.slots : IF x.slots[i] = 0 \/ y.slots[i] = 0 THEN x.slots[i] = y.slots[i] ELSE F(frame[x.slots[i]], frame[y.slots[i]])
Equal(x, y) == x.id = y.id /\ LikeRig(x.rig) = LikeRig(y.rig) /\ Slots(x, y, Same)
EqualButCams(x, y) == x.id = y.id /\ Slots(x, y, SameButCam)

(* Times: 0 is the invalid one, which is before all others. *)
Times(x) == {frame[o].time : o \in Stored(x)}
Least(s) == CHOOSE t \in s : \A u \in s : t <= u
Greatest(s) == CHOOSE t \in s : \A u \in s : u <= t
\* -1: refused.  Without frames there is no earliest time to report.
IsMin(x, t) == IF Times(x) = {} THEN TRUE ELSE t = IF Least(Times(x)) = 0 THEN -1 ELSE Least(Times(x))
IsMax(x, t) == t = IF Times(x) \subseteq {0} THEN -1 ELSE Greatest(Times(x))
=============================================================================
