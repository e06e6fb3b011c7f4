-------------------------------- MODULE Rigs --------------------------------
(* Camera rigs: cameras are objects that rigs and clients may share; a rig *)
(* pairs each camera with the transformation that mounts it.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Slot
VARIABLES cam,   \* sequence of all camera objects ever: [id, kind, par, w, dist, delay, comp, mask, topic, desc]
          rig    \* slot -> None or [id, topic, desc, cams: camera numbers, ext: transformations, cov: 0 if there is none]
None == [on |-> FALSE]
Rig(id, desc, c, e, cov) == [on |-> TRUE, id |-> id, topic |-> 0, desc |-> desc, cams |-> c, ext |-> e, cov |-> cov]
NumCams(x) == Len(x.cams)
Put(s, x) == rig' = [rig EXCEPT ![s] = x]

(* What an identifier refers to. *)
At(x, id) == {i \in DOMAIN x.cams : cam[x.cams[i]].id = id}
\* The index answered for an identifier (0: there is none).
Found(x, id, i) == IF At(x, id) = {} THEN i = 0 ELSE i \in At(x, id)

(* Changes. *)
CanBuild(id, c, e) == id # 0 /\ Len(c) = Len(e) /\ \A i \in DOMAIN c : c[i] # 0
SetCam(s, i, o) == Put(s, [rig[s] EXCEPT !.cams[i] = o])
SetExt(s, i, T) == Put(s, [rig[s] EXCEPT !.ext[i] = T])
NewCam(c) == cam' = Append(cam, c)
ChangeCam(o, c) == cam' = [cam EXCEPT ![o] = c]

(* Copies own copies of the cameras: new objects, in order. *)
Originals(s) == [i \in 1..NumCams(rig[s]) |-> cam[rig[s].cams[i]]]
NewObjects(n) == [i \in 1..n |-> Len(cam) + i]
\* x with its cameras turned into cs.
Own(x, cs) == [x EXCEPT !.cams = NewObjects(Len(cs))]
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Copy(s, g) == cam' = cam \o Originals(s) /\ Put(g, Own(rig[s], Originals(s)))
WithId(c, id) == [c EXCEPT !.id = id]
Plain(c) == [c EXCEPT !.dist = 0]
\* ids: those of the new cameras; none has been seen before.
Unused(ids) == Distinct(ids) /\ \A i \in DOMAIN ids : ids[i] # 0 /\ \A o \in DOMAIN cam : cam[o].id # ids[i]
Renewed(s, g, id, ids, plain) ==
  LET cs == [i \in 1..NumCams(rig[s]) |-> WithId(IF plain THEN Plain(Originals(s)[i]) ELSE Originals(s)[i], ids[i])] IN
  /\ Unused(ids) /\ id # 0 /\ (\A t \in Slot : rig[t].on => rig[t].id # id)
  /\ cam' = cam \o cs /\ Put(g, [Own(rig[s], cs) EXCEPT !.id = id])

(* Equality: identifier and labels, cameras, and extrinsics. *)
Public(c) == [c EXCEPT !.mask = 0]
Equal(x, y) ==
  /\ x.id = y.id /\ x.topic = y.topic /\ x.desc = y.desc /\ x.ext = y.ext
  /\ Len(x.cams) = Len(y.cams) /\ \A i \in DOMAIN x.cams : Public(cam[x.cams[i]]) = Public(cam[y.cams[i]])

(* Written to a document and read into the rig in slot g: masks are not part of it; a covariance g has stays if there is none. *)
Transfer(s, g) ==
  LET cs == [i \in 1..NumCams(rig[s]) |-> Public(Originals(s)[i])] IN
  /\ cam' = cam \o cs
  /\ Put(g, [Own(rig[s], cs) EXCEPT !.cov = IF @ = 0 THEN rig[g].cov ELSE @])
=============================================================================
