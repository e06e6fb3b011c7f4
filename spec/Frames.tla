------------------------------- MODULE Frames -------------------------------
(* Frames of a camera: channels with one entry per keypoint, descriptors   *)
(* in blocks of one type each, and the frame's own attributes.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Frame
VARIABLE fr   \* frame -> [ch: channel -> values, on: are there descriptors, blk: blocks [r: bytes, v: descriptors],
              \*           typed: are there types, typ: one per block, at: [time, valid, id], cam, raw]

Meas == "meas"
Track == "track"
PerKeypoint == {Meas, "unc", "ori", "score", "scale", "pos", "toff", Track}
Fresh == [ch |-> <<>>, on |-> FALSE, blk |-> <<>>, typed |-> FALSE, typ |-> <<>>,
          at |-> [time |-> 0, valid |-> TRUE, id |-> 0], cam |-> 0, raw |-> 0]

Put(c, k, v) == [x \in DOMAIN c \cup {k} |-> IF x = k THEN v ELSE c[x]]
Get(f, c) == IF c \in DOMAIN fr[f].ch THEN fr[f].ch[c] ELSE <<>>
Has(f, c) == c \in DOMAIN fr[f].ch
Num(f) == Len(Get(f, Meas))
Change(f, x) == fr' = [fr EXCEPT ![f] = x]
SetTo(f, c, v) == Change(f, [fr[f] EXCEPT !.ch = Put(@, c, v)])

(* Whole channels. *)
Set(f, c, v) == SetTo(f, c, v)
\* Exchanges the content with v; returns the former content.
Swapped(f, c) == Get(f, c)
\* Appended; entries for earlier keypoints that never had a value are filled up first.
CanExtend(f, c, v) == c = Meas \/ Len(Get(f, c)) + Len(v) <= Num(f)
Filled(n, d) == [i \in 1..n |-> d]
Extended(ch, c, v, d) ==
  LET had == IF c \in DOMAIN ch THEN ch[c] ELSE <<>> IN
  LET n == IF Meas \in DOMAIN ch THEN Len(ch[Meas]) ELSE 0 IN
  Put(ch, c, IF c = Meas THEN had \o v ELSE had \o Filled(n - Len(v) - Len(had), d) \o v)
Extend(f, c, v, d) == Change(f, [fr[f] EXCEPT !.ch = Extended(@, c, v, d)])
CanWrite(f, c, i) == Has(f, c) /\ i \in DOMAIN Get(f, c)
Write(f, c, i, v) == SetTo(f, c, [Get(f, c) EXCEPT ![i] = v])

(* Descriptor blocks. *)
Consistent(f) == ~fr[f].on \/ (fr[f].typed /\ Len(fr[f].typ) = Len(fr[f].blk))
WithBlocks(x, b, t) == [x EXCEPT !.on = TRUE, !.typed = TRUE, !.blk = b, !.typ = t]
CanPlace(f, k) == Consistent(f) /\ (fr[f].blk = <<>> \/ k \in DOMAIN fr[f].blk)
\* In a frame without blocks the first one is made.
Place(f, k, b, t) ==
  Change(f, IF fr[f].blk = <<>> THEN WithBlocks(fr[f], <<b>>, <<t>>)
            ELSE WithBlocks(fr[f], [fr[f].blk EXCEPT ![k] = b], [fr[f].typ EXCEPT ![k] = t]))
CanSwapBlock(f, k) == Consistent(f) /\ (k = 1 \/ k \in DOMAIN fr[f].blk)
Append1(f, b, t) == Change(f, WithBlocks(fr[f], Append(fr[f].blk, b), Append(fr[f].typ, t)))
CanRetype(f, t) == fr[f].on /\ Len(t) = Len(fr[f].blk)
Retype(f, t) == Change(f, [fr[f] EXCEPT !.typed = TRUE, !.typ = t])

RECURSIVE Flat(_)
Flat(b) == IF b = <<>> THEN <<>> ELSE Head(b).v \o Flat(Tail(b))
Descriptors(f) == Flat(fr[f].blk)
NumDescriptors(f) == Len(Descriptors(f))
\* The types of the descriptors one after the other.
RECURSIVE Types(_, _)
Types(b, t) == IF b = <<>> THEN <<>> ELSE Filled(Len(Head(b).v), Head(t)) \o Types(Tail(b), Tail(t))

HasType(f, t) == fr[f].on /\ \E k \in DOMAIN fr[f].typ : fr[f].typ[k] = t
\* The block of a type: the first one.
Block(f, t) == CHOOSE k \in DOMAIN fr[f].typ : fr[f].typ[k] = t /\ \A j \in 1..(k - 1) : fr[f].typ[j] # t
Start(f, t) == Len(Flat(SubSeq(fr[f].blk, 1, Block(f, t) - 1)))
Size(f, t) == Len(fr[f].blk[Block(f, t)].v)
NumOfType(f, t) == IF Has(f, Meas) /\ HasType(f, t) THEN Size(f, t) ELSE 0
CanSelect(f, c, t) == HasType(f, t) /\ Has(f, c) /\ Start(f, t) + Size(f, t) <= Len(Get(f, c))
Select(f, c, t) == SubSeq(Get(f, c), Start(f, t) + 1, Start(f, t) + Size(f, t))

(* Removing keypoints. *)
Untracked(f) == SelectSeq([i \in 1..Len(Get(f, Track)) |-> i], LAMBDA i : Get(f, Track)[i] < 0)
Uniform(f) ==
  /\ \A c \in DOMAIN fr[f].ch \cap PerKeypoint : Len(fr[f].ch[c]) = Len(Get(f, Track))
  /\ fr[f].on => NumDescriptors(f) = Len(Get(f, Track))
CanDiscard(f) == Has(f, Track) /\ (Untracked(f) = <<>> \/ Uniform(f))
Pick(s, ok) == [i \in 1..Len(ok) |-> s[ok[i]]]
Kept(f) == SelectSeq([i \in 1..Len(Get(f, Track)) |-> i], LAMBDA i : Get(f, Track)[i] >= 0)
RECURSIVE KeptBlocks(_, _, _)
KeptBlocks(b, at, keep) ==
  IF b = <<>> THEN <<>>
  ELSE LET n == Len(Head(b).v) IN
       LET mine == SelectSeq([i \in 1..n |-> i], LAMBDA i : (at + i) \in keep) IN
       <<[Head(b) EXCEPT !.v = Pick(@, mine)]>> \o KeptBlocks(Tail(b), at + n, keep)
Discard(f) ==
  IF Untracked(f) = <<>> THEN UNCHANGED fr
  ELSE LET k == Kept(f) IN
       Change(f, [fr[f] EXCEPT !.ch = [c \in DOMAIN @ |-> IF c \in PerKeypoint THEN Pick(@[c], k) ELSE @[c]],
                               !.blk = KeptBlocks(@, 0, {k[i] : i \in DOMAIN k})])
\* No keypoint is left; channels may be added by it.
Cleared(x, y) ==
  /\ DOMAIN x.ch \subseteq DOMAIN y.ch /\ DOMAIN y.ch \subseteq DOMAIN x.ch \cup PerKeypoint
  /\ \A c \in DOMAIN y.ch : y.ch[c] = IF c \in PerKeypoint THEN <<>> ELSE x.ch[c]
  /\ Flat(y.blk) = <<>> /\ (y.on => y.typed /\ Len(y.typ) = Len(y.blk))
  /\ y.at = x.at /\ y.cam = x.cam /\ y.raw = x.raw

(* Copies, equality, attributes. *)
Copy(f, g) == Change(g, fr[f])
\* Type numbers are a channel of their own.
SameChannels(x, y) ==
  x.ch = y.ch /\ x.on = y.on /\ (x.on => x.blk = y.blk) /\ x.typed = y.typed /\ (x.typed => x.typ = y.typ)
SameButCamera(x, y) == SameChannels(x, y) /\ x.at.time = y.at.time /\ x.at.valid = y.at.valid
\* Camera 3 is an equal copy of camera 1.
Like(a, b) == a = b \/ {a, b} = {1, 3}
Same(x, y) == SameButCamera(x, y) /\ Like(x.cam, y.cam)
\* Written by one frame and read by another: the blocks are the same; their types are left to the reader.
CanMove(f) == fr[f].on
Move(f, g) == Change(g, [fr[g] EXCEPT !.on = TRUE, !.blk = fr[f].blk])
Drop(f, c) == Change(f, [fr[f] EXCEPT !.ch = [x \in DOMAIN @ \ {c} |-> @[x]]])
=============================================================================
