------------------------------ MODULE Pipeline ------------------------------
(* The multi-camera pipeline at the level of its API.  Submitted images    *)
(* are processed in any order and then inserted, in one step, into the     *)
(* set of images open at their time; complete sets move to the output.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Thread, Image,
          Check    \* subset of {"queue"}: whether the order and blocking rules of the output are enforced

VARIABLES par,     \* <<number of cameras, tolerance>>
          img,     \* [Image -> [st, cam, ts]]
          open,    \* open sets in the order of their time: [t, s], s[c] the image of camera c or 0
          out,     \* complete sets that were not fetched, in the order of their time
          closed,  \* 0: open for business, 1: being shut down, 2: accepts no images any more
          call     \* [Thread -> <<operation, stage, image, limit, result, set>>]

vars == <<par, img, open, out, closed, call>>
NoSet == [t |-> 0, s |-> <<>>]
NoCall == <<"none", "idle", 0, 0, FALSE, NoSet>>
Init(n, tol) ==
  /\ par = <<n, tol>>
  /\ img = [k \in Image |-> [st |-> "new", cam |-> 0, ts |-> 0]]
  /\ open = <<>> /\ out = <<>> /\ closed = 0
  /\ call = [t \in Thread |-> NoCall]

Strict == "queue" \in Check
Cams == 1..par[1]
In(t, o, s) == call[t][1] = o /\ call[t][2] = s
Op(t) == call[t][1]
Complete(set) == \A c \in Cams : set.s[c] # 0
Images(set) == {set.s[c] : c \in Cams} \ {0}
Is(k, s) == img[k].st = s
Mark(ks, s) == [k \in Image |-> IF k \in ks THEN [img[k] EXCEPT !.st = s] ELSE img[k]]
RemoveIx(q, D) == LET keep == SetToSortSeq({i \in DOMAIN q : i \notin D}, LAMBDA a, b : a < b) IN [i \in DOMAIN keep |-> q[keep[i]]]
All(q, D) == UNION {Images(q[i]) : i \in D}
PutByTime(q, x) == LET p == Cardinality({i \in DOMAIN q : q[i].t <= x.t}) IN SubSeq(q, 1, p) \o <<x>> \o SubSeq(q, p + 1, Len(q))

-----------------------------------------------------------------------------
(* Insertion of a processed image. *)
Abs(x) == IF x < 0 THEN -x ELSE x
Diff(i, k) == Abs(open[i].t - img[k].ts)
Nearest(k) == {i \in DOMAIN open : Diff(i, k) <= par[2] /\ \A j \in DOMAIN open : Diff(i, k) <= Diff(j, k)}
\* The open sets with image k placed in set i (0: a set of its own).
Placed(k, i) ==
  IF i = 0 THEN PutByTime(open, [t |-> img[k].ts, s |-> [c \in Cams |-> IF c = img[k].cam THEN k ELSE 0]])
  ELSE [open EXCEPT ![i].s[img[k].cam] = k]
\* A frame was dropped: incomplete sets before two consecutive complete ones, if more than three sets are open.
Pair(q) == {i \in 1..(Len(q) - 1) : Complete(q[i]) /\ Complete(q[i + 1])}
Hopeless(q) ==
  IF Len(q) <= 3 \/ Pair(q) = {} THEN {}
  ELSE LET p == CHOOSE i \in Pair(q) : \A j \in Pair(q) : i <= j IN {i \in 1..(p - 1) : ~Complete(q[i])}
\* Complete sets leave in the order of time.
Leaving(q) == {i \in DOMAIN q : \A j \in 1..i : Complete(q[j])}
Insert(k) ==
  /\ Is(k, "busy")
  /\ \E i \in (IF Nearest(k) = {} THEN {0} ELSE Nearest(k)) :
       LET a == Placed(k, i) IN
       LET old == IF i = 0 THEN {} ELSE Images(open[i]) \ Images(a[i]) IN
       LET b == RemoveIx(a, Hopeless(a)) IN
       LET n == Cardinality(Leaving(b)) IN
         /\ open' = SubSeq(b, n + 1, Len(b))
         /\ out' = FoldLeft(PutByTime, out, SubSeq(b, 1, n))
         /\ img' = [j \in Image |-> [img[j] EXCEPT !.st = IF j \in old \cup All(a, Hopeless(a)) THEN "dropped"
                                                      ELSE IF j = k THEN "held" ELSE @]]
  /\ UNCHANGED <<par, closed, call>>

Begin(k) == Is(k, "queued") /\ img' = Mark({k}, "busy") /\ UNCHANGED <<par, open, out, closed, call>>

-----------------------------------------------------------------------------
(* Calls. *)
Finish(t, ok, set) == call' = [call EXCEPT ![t] = <<@[1], "done", @[3], @[4], ok, set>>]
Invoke(t, o, k, m) == call[t] = NoCall /\ call' = [call EXCEPT ![t] = <<o, "called", k, m, FALSE, NoSet>>]

CallSubmit(t, o, k, c, ts, m) ==
  /\ Is(k, "new") /\ Invoke(t, o, k, m)
  /\ img' = [img EXCEPT ![k] = [st |-> "calling", cam |-> c, ts |-> ts]]
  /\ UNCHANGED <<par, open, out, closed>>
Call(t, o) == Invoke(t, o, 0, 0) /\ UNCHANGED <<par, img, open, out, closed>>

Entry == IF closed = 2 THEN "refused" ELSE "queued"
Put(t) == /\ In(t, "put", "called")
          /\ img' = Mark({call[t][3]}, Entry) /\ Finish(t, closed # 2, NoSet)
          /\ UNCHANGED <<par, open, out, closed>>
\* Blocking submission: an image that is reported accepted is processed.
PutBlocking(t) ==
  /\ In(t, "putb", "called")
  /\ \/ /\ Strict => closed = 0 /\ Len(out) < call[t][4]
        /\ img' = Mark({call[t][3]}, Entry) /\ Finish(t, TRUE, NoSet)
     \/ /\ Strict => closed # 0
        /\ img' = Mark({call[t][3]}, "refused") /\ Finish(t, FALSE, NoSet)
  /\ UNCHANGED <<par, open, out, closed>>

Oldest == {i \in DOMAIN out : \A j \in DOMAIN out : out[i].t <= out[j].t}
Newest == {i \in DOMAIN out : \A j \in DOMAIN out : out[i].t >= out[j].t}
PutDropping(t) ==
  /\ In(t, "putd", "called")
  /\ LET k == call[t][3]
         full == Len(out) >= call[t][4] IN
       \/ /\ Strict => ~full
          /\ img' = Mark({k}, Entry) /\ UNCHANGED out /\ Finish(t, FALSE, NoSet)
       \/ /\ Strict => full
          /\ \E i \in (IF Strict THEN Oldest ELSE DOMAIN out) :
               /\ img' = [Mark(Images(out[i]), "dropped") EXCEPT ![k].st = Entry]
               /\ out' = RemoveIx(out, {i}) /\ Finish(t, TRUE, NoSet)
  /\ UNCHANGED <<par, open, closed>>

Blocking(t) == Op(t) \in {"nextb", "latestb"}
MayFetch(t) == Blocking(t) => (Strict => closed = 0)
Next(t) ==
  /\ Op(t) \in {"next", "nextb"} /\ call[t][2] = "called" /\ MayFetch(t)
  /\ \E i \in (IF Strict THEN Oldest ELSE DOMAIN out) :
       /\ out' = RemoveIx(out, {i})
       /\ img' = Mark(Images(out[i]), "delivered")
       /\ Finish(t, TRUE, out[i])
  /\ UNCHANGED <<par, open, closed>>
\* The newest set; older complete sets and open sets that are not newer are discarded.
Latest(t) ==
  /\ Op(t) \in {"latest", "latestb"} /\ call[t][2] = "called" /\ MayFetch(t)
  /\ \E i \in (IF Strict THEN Newest ELSE DOMAIN out) :
     \E D \in (IF Strict THEN {DOMAIN out} ELSE {X \in SUBSET DOMAIN out : i \in X}) :
       LET P == {j \in DOMAIN open : open[j].t <= out[i].t} IN
         /\ out' = RemoveIx(out, D) /\ open' = RemoveIx(open, P)
         /\ img' = [k \in Image |-> [img[k] EXCEPT !.st = IF k \in Images(out[i]) THEN "delivered"
                                                       ELSE IF k \in All(out, D) \cup All(open, P) THEN "dropped" ELSE @]]
         /\ Finish(t, TRUE, out[i])
  /\ UNCHANGED <<par, closed>>
\* Nothing to fetch: blocking calls fail only after shutdown has begun.
Nothing(t) ==
  /\ Op(t) \in {"next", "nextb", "latest", "latestb"} /\ call[t][2] = "called"
  /\ IF Blocking(t) THEN Strict => closed # 0 ELSE out = <<>>
  /\ Finish(t, FALSE, NoSet)
  /\ UNCHANGED <<par, img, open, out, closed>>

Count(t) == /\ Op(t) \in {"done", "open"} /\ call[t][2] = "called"
            /\ call' = [call EXCEPT ![t] = <<@[1], "done", 0, IF @[1] = "done" THEN Len(out) ELSE Len(open), TRUE, NoSet>>]
            /\ UNCHANGED <<par, img, open, out, closed>>
Working == {k \in Image : img[k].st \in {"queued", "busy"}}
Wait(t) == /\ In(t, "wait", "called") /\ Working = {} /\ Finish(t, TRUE, NoSet)
           /\ UNCHANGED <<par, img, open, out, closed>>
Larger(a, b) == IF a > b THEN a ELSE b
Flag(t) == /\ Op(t) \in {"shut", "dtor"} /\ call[t][2] = "called"
           /\ closed' = Larger(closed, 1) /\ call' = [call EXCEPT ![t][2] = "flagged"]
           /\ UNCHANGED <<par, img, open, out>>
Close(t) == /\ call[t][2] = "flagged" /\ closed' = 2
            /\ call' = [call EXCEPT ![t][2] = IF Op(t) = "shut" THEN "done" ELSE "draining"]
            /\ UNCHANGED <<par, img, open, out>>
Drain(t) == /\ In(t, "dtor", "draining") /\ Working = {} /\ Finish(t, TRUE, NoSet)
            /\ UNCHANGED <<par, img, open, out, closed>>
Return(t) == /\ call[t][2] = "done" /\ call' = [call EXCEPT ![t] = NoCall]
             /\ UNCHANGED <<par, img, open, out, closed>>

SilentOf(t) == Put(t) \/ PutBlocking(t) \/ PutDropping(t) \/ Next(t) \/ Latest(t) \/ Nothing(t) \/ Count(t) \/ Wait(t)
               \/ Flag(t) \/ Close(t) \/ Drain(t)
Silent == (\E k \in Image : Insert(k)) \/ \E t \in Thread : SilentOf(t)

\* A call may block only for these reasons.
MayBlock(t) == \/ In(t, "putb", "called") /\ closed = 0 /\ Len(out) >= call[t][4]
               \/ Blocking(t) /\ call[t][2] = "called" /\ closed = 0 /\ out = <<>>
               \/ In(t, "wait", "called") /\ Working # {}
               \/ In(t, "dtor", "draining") /\ Working # {}
Stuck == /\ \A k \in Image : ~Is(k, "busy") /\ ~Is(k, "queued")
         /\ \A t \in Thread : call[t] = NoCall \/ MayBlock(t)

-----------------------------------------------------------------------------
TypeOK ==
  /\ \A i, j \in DOMAIN open : i < j => open[i].t < open[j].t
  /\ \A i, j \in DOMAIN out : i < j => out[i].t <= out[j].t
\* C06
SetOK(set) == \A c \in Cams : set.s[c] # 0 =>
                LET k == set.s[c] IN img[k].cam = c /\ Abs(img[k].ts - set.t) <= par[2]
Grouped == /\ \A i \in DOMAIN open : SetOK(open[i])
           /\ \A i \in DOMAIN out : SetOK(out[i]) /\ Complete(out[i])
           /\ \A t \in Thread : call[t][6] # NoSet => SetOK(call[t][6]) /\ Complete(call[t][6])
\* After an insertion nothing complete is held back but by an older incomplete set.
Moved == [][\A k \in Image : Is(k, "busy") /\ img'[k].st # "busy" => (Len(open') > 0 => ~Complete(open'[1]))]_vars
\* Every image is in exactly one place.
Sets == {<<"open", i>> : i \in DOMAIN open} \cup {<<"out", i>> : i \in DOMAIN out}
Ims(x) == IF x[1] = "open" THEN Images(open[x[2]]) ELSE Images(out[x[2]])
Once == /\ \A x, y \in Sets : x # y => Ims(x) \cap Ims(y) = {}
        /\ \A k \in Image : Is(k, "held") <=> \E x \in Sets : k \in Ims(x)
Forever == [][\A k \in Image : img[k].st \in {"delivered", "dropped", "refused"} => img'[k] = img[k]]_vars
\* C07
ClosedFinal == [][closed' >= closed /\ (closed = 2 => \A k \in Image : ~(img[k].st # "queued" /\ img'[k].st = "queued"))]_vars
Ordered == [][\A t \in Thread : Op(t) \in {"next", "nextb"} /\ call[t][2] = "called" /\ call'[t][2] = "done" /\ call'[t][5] =>
                \A i \in DOMAIN out' : out'[i].t >= call'[t][6].t]_vars
=============================================================================
