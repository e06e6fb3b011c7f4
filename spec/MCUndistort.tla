----------------------------- MODULE MCUndistort -----------------------------
(* Pipelines of small cameras, images, and maps of one output camera.         *)
EXTENDS Undistort, TLC
CONSTANT Most
VARIABLE last      \* the image last processed, what the processing saw and what the frame shows after the source was changed
Nothing == [on |-> FALSE]
Init == pipe = None /\ ids = {} /\ map = None /\ made = {} /\ last = Nothing
Maps == {[y \in 1..2 |-> [x \in 1..5 |-> f[((x + a * y) % 3) + 1]]] : f \in {<<0, 1, 2>>, <<-1, 0, 4>>, <<2, 2, 3>>, <<4, -1, 5>>, <<3, 1, 0>>}, a \in 0..1}
Next ==
  \/ \E k \in 0..3, i, o \in 1..3, c \in BOOLEAN : CanPipe(k, i, o) /\ Pipe(k, i, o, c) /\ last' = Nothing
  \/ pipe.on /\ \E w \in 4..5, h \in 2..3, f \in {0, 50} : Fits(pipe.in, w, h) /\ Cardinality(ids) < Most /\ Frame(Cardinality(ids) + 1, Image(w, h, f))
       /\ last' = [on |-> TRUE, m |-> Image(w, h, f), given |-> Given(Image(w, h, f))]
  \/ map = None /\ ids = {} /\ \E u, v \in Maps : Map(1, 2, u, v) /\ UNCHANGED last
Spec == Init /\ [][Next]_<<pipe, ids, map, made, last>>
Range(m) == {m[y][x] : y \in DOMAIN m, x \in DOMAIN m[1]}
\* The processing is given an image that fits the output camera if there is an undistorter, and the very image if there is none.
Given2 == last.on => /\ SameSize(last.m, Size[pipe.in][1], Size[pipe.in][2])
                     /\ IF pipe.flips THEN SameSize(last.given, Size[pipe.out][1], Size[pipe.out][2]) ELSE last.given = last.m
Fresh == [][ids # ids' => Cardinality(ids') = Cardinality(ids) + 1]_<<pipe, ids, map, made, last>>
\* The shown image has the size of the output camera, and no colours but those of the input and black.
Undistorted == map.on => LET m == Image(4, 3, 7) IN SameSize(Shown(m), 5, 2) /\ Range(Shown(m)) \subseteq Range(m) \cup {0}
ASSUME \A w \in {8, 9, 32}, h \in {8, 24}, s \in 1..16 : LET r == [kind |-> 0, dist |-> 0, w |-> w, h |-> h, scale |-> s, alpha |-> 0, how |-> 0] IN
  OutW(r) >= 1 => /\ Len(Scaled(r)) = 4 /\ 8 * OutW(r) <= s * w /\ 8 * (OutW(r) + 1) > s * w
                  /\ s <= 8 => Scaled(r)[1] <= 1000 * w /\ Scaled(r)[2] <= 750 * w
=============================================================================
