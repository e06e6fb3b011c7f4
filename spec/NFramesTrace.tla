---------------------------- MODULE NFramesTrace ----------------------------
EXTENDS NFrames, TLC, Json, IOUtils

Rigs == <<<<1, 2>>, <<3, 4>>, <<1, 5>>, <<1>>, <<1, 2, 5>>, <<>>>>
Cams(c) == IF c \in {3, 4} THEN c - 2 ELSE c
CamId(c) == IF c = 0 THEN 0 ELSE IF c = 5 THEN 2 ELSE Cams(c)
RigClass(r) == IF r = 2 THEN 1 ELSE r

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ nf = [n \in Obj |-> None] /\ frame = <<>>
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Shown(x) == IF x.on THEN [on |-> TRUE, id |-> x.id, rig |-> x.rig, slots |-> x.slots] ELSE None
Seen == frame' = E.frames /\ \A n \in Obj : nf'[n] = Shown(E.n[n + 1]) /\ (nf'[n].on => E.n[n + 1].agree)
Skip == UNCHANGED <<nf, frame>>
If(can, action) == E.ok = (TRUE = can) /\ IF E.ok THEN action /\ Seen ELSE Skip

Fresh(id) == id > 0 /\ \A n \in Obj : nf[n].on => nf[n].id # id
Empty(cam, time) == [time |-> time, valid |-> TRUE, cam |-> cam, ch |-> 0, img |-> 0]
IsEmpty(f, cam, time) == [time |-> f.time, valid |-> f.valid, cam |-> f.cam, ch |-> f.ch, img |-> f.img] = Empty(cam, time)
\* A channel that is written appears.
Edit(o, k, v) == frame' = [frame EXCEPT ![o] = IF k = "kp" THEN [@ EXCEPT !.kp = v, !.shape = E.frames[o].shape] ELSE IF k = "valid" THEN [@ EXCEPT !.valid = (v # 0)] ELSE [@ EXCEPT ![k] = v]]
Members(n) == Stored(nf[n])

Next ==
  \/ Step("plain") /\ E.ok /\ Put(E.o, Made(E.id, 0, E.num)) /\ UNCHANGED frame /\ Seen
  \/ Step("rigged") /\ E.ok = (E.rig # 0) /\ IF ~E.ok THEN Skip ELSE
       LET id == IF E.id = -1 THEN E.n[E.o + 1].id ELSE E.id IN
       (E.id = -1 => Fresh(id)) /\ Put(E.o, Made(id, E.rig, Len(Rigs[E.rig]))) /\ UNCHANGED frame /\ Seen
  \/ Step("test") /\ E.ok = (E.rig # 0) /\ IF ~E.ok THEN Skip ELSE
       LET k == Len(Rigs[E.rig])  id == E.n[E.o + 1].id IN
       /\ Fresh(id) /\ Put(E.o, [Made(id, E.rig, k) EXCEPT !.slots = [i \in 1..k |-> Len(frame) + i]])
       /\ Len(E.frames) = Len(frame) + k /\ frame' = frame \o SubSeq(E.frames, Len(frame) + 1, Len(E.frames))
       /\ (\A i \in 1..k : IsEmpty(E.frames[Len(frame) + i], Rigs[E.rig][i], E.time)) /\ Seen
  \/ Step("frame") /\ E.f = Len(frame) + 1 /\ IsEmpty(E.frames[E.f], E.cam, E.time) /\ frame' = Append(frame, E.frames[E.f]) /\ UNCHANGED nf /\ Seen
  \/ Step("change") /\ Edit(E.o, E.f, E.v) /\ UNCHANGED nf /\ Seen
  \/ Step("write") /\ If(E.i \in DOMAIN nf[E.o].slots /\ nf[E.o].slots[E.i] # 0, Edit(nf[E.o].slots[E.i], E.f, E.v) /\ UNCHANGED nf)
  \/ Step("set") /\ If(CanSet(E.o, E.i, E.f), SetSlot(E.o, E.i, E.f) /\ UNCHANGED frame)
  \/ Step("unset") /\ If(E.i \in DOMAIN nf[E.o].slots, SetSlot(E.o, E.i, 0) /\ UNCHANGED frame)
  \/ Step("copy") /\ E.ok /\ Copy(E.o, E.g) /\ Seen
  \/ Step("setid") /\ Put(E.o, [nf[E.o] EXCEPT !.id = E.id]) /\ UNCHANGED frame /\ Seen
  \/ Step("setrig") /\ If(CanSetRig(E.o, E.rig), SetRig(E.o, E.rig))
  \/ Step("equal") /\ E.ok /\ E.res = (TRUE = Equal(nf[E.o], nf[E.g])) /\ E.nocam = (TRUE = EqualButCams(nf[E.o], nf[E.g])) /\ Skip /\ Seen
  \/ Step("summary") /\ IsMin(nf[E.o], E.min) /\ IsMax(nf[E.o], E.max) /\ E.num = Len(nf[E.o].slots) /\ E.all = (TRUE = Complete(nf[E.o]))
       /\ (Complete(nf[E.o]) => E.img = IF (TRUE = (\A o \in Members(E.o) : frame[o].img # 0)) THEN 1 ELSE 0)
       /\ Skip /\ Seen
  \/ Step("release") /\ (Complete(nf[E.o]) \/ ~E.ok)
       /\ IF E.ok THEN frame' = [o \in DOMAIN frame |-> IF o \in Members(E.o) THEN [frame[o] EXCEPT !.img = 0] ELSE frame[o]] /\ UNCHANGED nf /\ Seen
          ELSE ~(Complete(nf[E.o]) /\ (\A o \in Members(E.o) : frame[o].img # 0) /\ Cardinality(Members(E.o)) = Len(nf[E.o].slots)) /\ Skip
  \/ Step("clear") /\ (Complete(nf[E.o]) \/ ~E.ok)
       /\ IF E.ok THEN /\ frame' = [o \in DOMAIN frame |-> IF o \in Members(E.o) THEN [frame[o] EXCEPT !.kp = E.frames[o].kp, !.shape = E.frames[o].shape] ELSE frame[o]]
                       /\ (\A o \in Members(E.o) : frame'[o].kp = 0 \/ (frame[o].kp = -1 /\ frame'[o].kp = -1)) /\ UNCHANGED nf /\ Seen
          ELSE ~Complete(nf[E.o]) /\ Skip
  \/ Step("access") /\ LET x == nf[E.o]
                           in == IF E.i \in DOMAIN x.slots THEN 1 ELSE 0
                           set == IF in = 1 /\ x.slots[E.i] # 0 THEN 1 ELSE 0
                           c == IF x.rig = 0 THEN <<>> ELSE Rigs[x.rig]
                           has == IF 2 \in {CamId(c[k]) : k \in DOMAIN c} THEN 1 ELSE 0
                           mine == IF E.i \in DOMAIN c THEN c[E.i] ELSE -1 IN
       /\ E.a = <<in, in, in, set, set>>
       /\ IF x.rig = 0 THEN E.c = <<-1, -1, -1, -1, -1, -1, -1>>
          ELSE /\ E.c[1] = Len(c) /\ E.c[2] = mine /\ E.c[3] = (IF mine = -1 THEN -1 ELSE CamId(mine)) /\ E.c[4] = (IF mine = -1 THEN -1 ELSE Cams(mine))
               /\ E.c[5] = has /\ E.c[7] = 0 /\ (IF has = 1 THEN E.c[6] \in DOMAIN c /\ CamId(c[E.c[6]]) = 2 ELSE E.c[6] = 0)
       /\ Skip /\ Seen

TraceSpec == TraceInit /\ [][Next]_<<nf, frame, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
