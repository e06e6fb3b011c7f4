---------------------------- MODULE FramesTrace -----------------------------
(* Recorded operations on real frames must be steps of Frames.             *)
EXTENDS Frames, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ fr = [f \in Frame |-> Fresh]
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid

AsSet(s) == {s[i] : i \in DOMAIN s}
Shown(x) == [ch |-> [c \in {y.n : y \in AsSet(x.ch)} |-> (CHOOSE y \in AsSet(x.ch) : y.n = c).v],
             on |-> x.on, blk |-> x.blk, typed |-> x.typed, typ |-> x.typ, at |-> x.at, cam |-> x.cam, raw |-> x.raw]
Seen == \A f \in Frame : Shown(E.all[f + 1]) = fr'[f]
Skip == UNCHANGED fr
\* A refused operation ends the recording, so that its effects are not seen.
If(can, action) == E.ok = (TRUE = can) /\ IF E.ok THEN action /\ Seen ELSE Skip

OfType(f, t, r) ==
  /\ r.has = (TRUE = HasType(f, t))
  /\ r.num = NumOfType(f, t)
  /\ r.block = IF HasType(f, t) THEN Block(f, t) ELSE 0
  /\ (HasType(f, t) => r.start = Start(f, t) /\ r.size = Size(f, t) /\ r.desc = fr[f].blk[Block(f, t)])
  /\ \A x \in AsSet(r.ch) : x.ok = (TRUE = CanSelect(f, x.n, t)) /\ (x.ok => x.v = Select(f, x.n, t))
Index(f, r) ==
  /\ r.num = NumDescriptors(f)
  /\ r.desc = Descriptors(f)
  /\ r.past = FALSE
  /\ (Consistent(f) => r.types = Types(fr[f].blk, fr[f].typ))
\* The directions to some keypoints of a type, given by the measurements they belong to.
Directions(f, t, ks, ok, res) ==
  LET can == fr[f].cam # 0 /\ CanSelect(f, Meas, t) /\ \A i \in DOMAIN ks : ks[i] < Size(f, t) IN
  /\ ok = (TRUE = (ks = <<>> \/ can))
  /\ ok => res = [i \in 1..Len(ks) |-> Select(f, Meas, t)[ks[i] + 1]]

Next ==
  \/ Step("set") /\ If(TRUE, Set(E.f, E.c, E.v))
  \/ Step("swap") /\ If(E.old = Swapped(E.f, E.c), Set(E.f, E.c, E.v)) /\ E.ok
  \/ Step("ext") /\ If(CanExtend(E.f, E.c, E.v), Extend(E.f, E.c, E.v, E.d))
  \/ Step("write") /\ If(CanWrite(E.f, E.c, E.i), Write(E.f, E.c, E.i, E.v))
  \/ Step("place") /\ If(CanPlace(E.f, E.k), Place(E.f, E.k, E.b, E.ty))
  \/ Step("swapb") /\ If(CanSwapBlock(E.f, E.k),
       /\ (fr[E.f].blk # <<>> => E.old = fr[E.f].blk[E.k] /\ E.oty = fr[E.f].typ[E.k])
       /\ (fr[E.f].blk = <<>> => E.old.v = <<>>)
       /\ Place(E.f, E.k, E.b, E.ty))
  \/ Step("extb") /\ If(Consistent(E.f), Append1(E.f, E.b, E.ty))
  \/ Step("retype") /\ If(CanRetype(E.f, E.v), Retype(E.f, E.v))
  \/ Step("type") /\ OfType(E.f, E.ty, E.res) /\ Skip /\ Seen
  \/ Step("index") /\ Index(E.f, E.res) /\ Skip /\ Seen
  \/ Step("writet") /\ If(CanSelect(E.f, Track, E.ty) /\ E.i <= Size(E.f, E.ty), Write(E.f, Track, Start(E.f, E.ty) + E.i, E.v))
  \/ Step("dirs") /\ Directions(E.f, E.ty, E.i, E.ok, E.res) /\ Skip
  \/ Step("discard") /\ If(CanDiscard(E.f), [i \in DOMAIN E.res |-> E.res[i] + 1] = Untracked(E.f) /\ Discard(E.f))
  \/ Step("clear") /\ E.ok /\ Change(E.f, Shown(E.all[E.f + 1])) /\ Cleared(fr[E.f], fr'[E.f]) /\ Seen
  \/ Step("copy") /\ Copy(E.f, E.g) /\ Seen
  \/ Step("equal") /\ E.res = (TRUE = Same(fr[E.f], fr[E.g])) /\ E.nocam = (TRUE = SameButCamera(fr[E.f], fr[E.g])) /\ Skip /\ Seen
  \/ Step("attr") /\ Change(E.f, [fr[E.f] EXCEPT !.at = E.v]) /\ Seen
  \/ Step("cams") /\ Change(E.f, [fr[E.f] EXCEPT !.cam = E.v, !.raw = E.w]) /\ Seen
  \/ Step("move") /\ If(CanMove(E.f), Move(E.f, E.g))
  \/ Step("drop") /\ If(Has(E.f, E.c), Drop(E.f, E.c))
  \/ Step("has") /\ E.res = (TRUE = Has(E.f, E.c)) /\ Skip /\ Seen
  \/ Step("new") /\ Change(E.f, Shown(E.all[E.f + 1])) /\ Seen /\ fr'[E.f].at.time = E.v /\ fr'[E.f].at.valid /\ fr'[E.f].at.id # 0
       /\ fr'[E.f].cam = E.cam /\ {Meas, "unc"} \subseteq DOMAIN fr'[E.f].ch /\ fr'[E.f].on
       /\ Cleared(Fresh, [fr'[E.f] EXCEPT !.at = Fresh.at, !.cam = 0, !.raw = 0])

TraceSpec == TraceInit /\ [][Next]_<<fr, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
