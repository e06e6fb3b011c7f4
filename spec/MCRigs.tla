------------------------------- MODULE MCRigs -------------------------------
(* Clients that build, change and copy rigs; and the lookup table an       *)
(* implementation keeps, rebuilt after each change of a rig's cameras.     *)
EXTENDS Rigs, TLC, Functions
CONSTANTS IdSet, MaxObjects, MaxCams, MaxSteps
VARIABLES table,   \* slot -> identifier -> index
          last
ASSUME 0 \notin IdSet
Camera(id, delay, dist) == [id |-> id, kind |-> 0, par |-> 0, w |-> 0, dist |-> dist, delay |-> delay, comp |-> 0, mask |-> 0, topic |-> 0, desc |-> 0]
Init == cam = <<Camera(1, 0, 1)>> /\ rig = [s \in Slot |-> None] /\ table = [s \in Slot |-> <<>>] /\ last = <<"start">>
LastAt(x, c, id) == CHOOSE i \in DOMAIN x.cams : c[x.cams[i]].id = id /\ \A j \in (i + 1)..Len(x.cams) : c[x.cams[j]].id # id
Table(x, c) == [id \in {c[x.cams[i]].id : i \in DOMAIN x.cams} |-> LastAt(x, c, id)]
Rebuilt(s) == table' = [table EXCEPT ![s] = Table(rig'[s], cam')]
On(s) == rig[s].on
Room(n) == Len(cam) + n <= MaxObjects
Next ==
  \/ Room(1) /\ (\E id \in IdSet : NewCam(Camera(id, 0, 1))) /\ last' = <<"cam">> /\ UNCHANGED <<rig, table>>
  \/ \E o \in DOMAIN cam : ChangeCam(o, [cam[o] EXCEPT !.delay = 1 - @]) /\ last' = <<"change", o>> /\ UNCHANGED <<rig, table>>
  \/ \E s \in Slot : \E n \in 0..MaxCams : \E c \in [1..n -> DOMAIN cam] :
       Put(s, Rig(1, 0, c, [i \in 1..n |-> i], 0)) /\ UNCHANGED cam /\ Rebuilt(s) /\ last' = <<"new", s>>
  \/ \E s \in Slot : On(s) /\ \E i \in DOMAIN rig[s].cams, o \in DOMAIN cam :
       SetCam(s, i, o) /\ UNCHANGED cam /\ Rebuilt(s) /\ last' = <<"set", s>>
  \/ \E s \in Slot : On(s) /\ \E id \in IdSet : \E i \in At(rig[s], id) :
       SetExt(s, i, 9) /\ UNCHANGED <<cam, table>> /\ last' = <<"ext", s>>
  \/ \E s, g \in Slot : s # g /\ On(s) /\ Room(NumCams(rig[s])) /\ Copy(s, g) /\ Rebuilt(g) /\ last' = <<"copy", s, g>>
  \/ \E s, g \in Slot : s # g /\ On(s) /\ Room(NumCams(rig[s])) /\ \E plain \in BOOLEAN :
       /\ Renewed(s, g, 50 + Len(cam), [i \in 1..NumCams(rig[s]) |-> 100 + Len(cam) + i], plain) /\ Rebuilt(g) /\ last' = <<"renew", s, g>>
  \/ \E s, g \in Slot : s # g /\ On(s) /\ On(g) /\ Room(NumCams(rig[s])) /\ Transfer(s, g) /\ Rebuilt(g) /\ last' = <<"move", s, g>>
Bounded == TLCGet("level") <= MaxSteps
Spec == Init /\ [][Next]_<<cam, rig, table, last>>

\* The table answers exactly as the specification allows.
Consistent == \A s \in Slot : On(s) => \A id \in IdSet \cup {cam[o].id : o \in DOMAIN cam} :
  Found(rig[s], id, IF id \in DOMAIN table[s] THEN table[s][id] ELSE 0)
Paired == \A s \in Slot : On(s) => Len(rig[s].cams) = Len(rig[s].ext) /\ \A i \in DOMAIN rig[s].cams : rig[s].cams[i] \in DOMAIN cam
CopyEqual == last[1] \in {"copy", "move"} => Equal(rig[last[2]], rig[last[3]])
RenewedDiffers == last[1] = "renew" => ~Equal(rig[last[2]], rig[last[3]]) /\ rig[last[2]].ext = rig[last[3]].ext
                    /\ \A i \in DOMAIN rig[last[3]].cams : At(rig[last[3]], cam[rig[last[3]].cams[i]].id) = {i}
\* A copy shares no camera with anything.
Owned == last[1] \in {"copy", "renew", "move"} => \A s \in Slot \ {last[3]} : On(s) => ToSet(rig[s].cams) \cap ToSet(rig[last[3]].cams) = {}
Equivalence == \A s, g \in Slot : On(s) /\ On(g) => Equal(rig[s], rig[s]) /\ (Equal(rig[s], rig[g]) <=> Equal(rig[g], rig[s]))
=============================================================================
