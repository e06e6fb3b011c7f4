----------------------------- MODULE RigsTrace ------------------------------
(* Recorded operations on real rigs must be steps of Rigs, and after each  *)
(* the rigs' answers must be those of the specification.                   *)
EXTENDS Rigs, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ cam = <<>> /\ rig = [s \in Slot |-> None]
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid

AsSet(s) == {s[i] : i \in DOMAIN s}
Shown(x) == IF x.on THEN [on |-> TRUE, id |-> x.id, topic |-> x.topic, desc |-> x.desc, cams |-> x.cams, ext |-> x.ext, cov |-> x.cov] ELSE None
Has(x, id, cs) == {i \in DOMAIN x.cams : cs[x.cams[i]].id = id}
Answer(x, cs, r) ==
  LET at == {i \in DOMAIN x.cams : cs[x.cams[i]].id = r.id} IN
  /\ r.ok = (r.id # 0)
  /\ r.id # 0 => r.has = (at # {}) /\ (IF at = {} THEN r.idx = 0 ELSE r.idx \in at)
  /\ r.tok = (r.id # 0 /\ at # {})
  /\ r.tok => r.T = x.ext[r.idx]
Seen ==
  /\ cam' = E.cams
  /\ \A s \in Slot : /\ rig'[s] = Shown(E.rigs[s + 1])
                     /\ rig'[s].on => E.rigs[s + 1].agree /\ \A r \in AsSet(E.look[s + 1].l) : Answer(rig'[s], cam', r)
Skip == UNCHANGED <<cam, rig>>
\* A refused operation ends the recording.
If(can, action) == E.ok = (TRUE = can) /\ IF E.ok THEN action /\ Seen ELSE Skip
R == rig[E.r]
New(s) == E.rigs[s + 1]
Ids(s) == [i \in DOMAIN New(s).cams |-> E.cams[New(s).cams[i]].id]
\* Cameras and a rig that turn up, as generated by a helper: all new, with identifiers of their own.
Generated(s, id, cov) ==
  /\ New(s).on /\ New(s).cams = NewObjects(Len(New(s).cams)) /\ Len(New(s).ext) = Len(New(s).cams)
  /\ Unused(Ids(s)) /\ (id \/ New(s).id # 0)
  /\ cam' = cam \o SubSeq(E.cams, Len(cam) + 1, Len(E.cams)) /\ Len(E.cams) = Len(cam) + Len(New(s).cams)
  /\ Put(s, Shown(New(s)))

Next ==
  \/ Step("cam") /\ E.o = Len(cam) + 1 /\ NewCam(E.cams[E.o]) /\ UNCHANGED rig /\ Seen
  \/ Step("change") /\ ChangeCam(E.o, [cam[E.o] EXCEPT ![E.f] = E.v]) /\ UNCHANGED rig /\ Seen
  \/ Step("new") /\ If(CanBuild(E.id, E.c, E.T), Put(E.r, Rig(E.id, 1, E.c, E.T, E.cov)) /\ UNCHANGED cam)
  \/ Step("default") /\ New(E.r).id # 0 /\ Put(E.r, Rig(New(E.r).id, 0, <<>>, <<>>, 0)) /\ UNCHANGED cam /\ Seen
  \/ Step("made") /\ Generated(E.r, FALSE, 0) /\ Seen /\ Len(rig'[E.r].cams) = E.n
  \/ Step("random") /\ Generated(E.r, FALSE, 0) /\ Seen /\ rig'[E.r].cams # <<>> /\ rig'[E.r].id # R.id
       /\ rig'[E.r].topic = R.topic /\ rig'[E.r].desc = R.desc /\ rig'[E.r].cov = R.cov
  \/ Step("setcam") /\ If(E.i \in DOMAIN R.cams /\ E.o # 0, SetCam(E.r, E.i, E.o) /\ UNCHANGED cam)
  \/ Step("setext") /\ If(E.i \in DOMAIN R.cams, SetExt(E.r, E.i, E.T) /\ UNCHANGED cam)
  \/ Step("setextid") /\ If(E.id # 0 /\ At(R, E.id) # {}, (\E i \in At(R, E.id) : SetExt(E.r, i, E.T)) /\ UNCHANGED cam)
  \/ Step("access") /\ E.a = [i \in 1..7 |-> IF E.i \in DOMAIN R.cams THEN 1 ELSE 0] /\ Skip /\ Seen
  \/ Step("query") /\ Answer(R, cam, E.res) /\ Skip /\ Seen
  \/ Step("clone") /\ E.how <= 3 /\ If(TRUE, Copy(E.r, E.g))
  \/ Step("clone") /\ E.how > 3 /\ If(Len(New(E.g).cams) = Len(R.cams), Renewed(E.r, E.g, New(E.g).id, Ids(E.g), E.how = 5))
  \/ Step("equal") /\ E.ok /\ (LET q == IF (TRUE = Equal(R, rig[E.g])) THEN 1 ELSE 0 IN E.res = <<q, q, q>>) /\ Skip /\ Seen
  \/ Step("cov") /\ Put(E.r, [R EXCEPT !.cov = E.v]) /\ UNCHANGED cam /\ Seen
  \/ Step("label") /\ If(E.f = "id" => E.v # 0, Put(E.r, [R EXCEPT ![E.f] = E.v]) /\ UNCHANGED cam)
  \/ Step("yaml") /\ E.ok /\ E.read = (R.cams # <<>>)
       /\ IF E.read THEN Transfer(E.r, E.g)
          ELSE UNCHANGED cam /\ Put(E.g, [rig[E.g] EXCEPT !.id = R.id, !.topic = R.topic, !.desc = R.desc, !.cov = IF R.cov = 0 THEN @ ELSE R.cov])
       /\ Seen
  \/ Step("garbage") /\ E.ok /\ ~E.read /\ UNCHANGED cam /\ Put(E.r, [R EXCEPT !.id = 9]) /\ Seen

TraceSpec == TraceInit /\ [][Next]_<<cam, rig, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
