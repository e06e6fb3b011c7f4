---------------------------- MODULE MatcherTrace ----------------------------
EXTENDS Matcher, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
Idle == [bits |-> 0]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ in = Idle /\ match = <<>> /\ losers = {} /\ round = 0

Range(s) == {s[i] : i \in DOMAIN s}
Distance(b, a) == LET p == Range(E.before[b].d)  q == Range(E.now[a].d) IN Cardinality((p \ q) \cup (q \ p))
\* Positions are in quarters of a pixel.  Windows are rectangles of w pixels to each side; what lies within a pixel
\* of the border or in the last row may or may not be found.
Whole(x) == (x % 4) = 0
Must(b, a, w) == LET p == E.before[b]  k == E.now[a]  dx == k.x - p.x  dy == k.y - p.y IN
  /\ dx >= -4 * w /\ dx <= 4 * w - (p.x % 4)
  /\ dy >= (IF Whole(p.y) /\ Whole(k.y) THEN -4 * w ELSE 4 - 4 * w) /\ dy <= 4 * w - 4
  /\ k.y < 4 * (E.h - 1)
May(b, a, w) == LET p == E.before[b]  k == E.now[a]  dx == k.x - p.x  dy == k.y - p.y IN
  dx > -4 * w - 4 /\ dx <= 4 * w /\ dy >= -4 * w - 2 /\ dy <= 4 * w + 2
\* 1: in the small window, 2: in the large one only, 0: in none.
Where(b, a) == (IF May(b, a, E.small) THEN {1} ELSE {})
          \cup (IF May(b, a, E.large) /\ ~Must(b, a, E.small) THEN {2} ELSE {})
          \cup (IF ~Must(b, a, E.large) THEN {0} ELSE {})
RECURSIVE Product(_)
Product(s) == IF s = {} THEN {<<>>} ELSE
  LET p == CHOOSE p \in s : TRUE IN {(p :> x) @@ w : x \in Where(p[1], p[2]), w \in Product(s \ {p})}
Accepts == E.dt > 0 /\ E.small > 0 /\ E.large >= E.small /\ E.h > 0 /\ E.bits <= 512

Begin ==
  /\ l <= Len(Ev) /\ E.e = "match" /\ in = Idle /\ E.ok /\ Accepts
  /\ \E w \in Product((DOMAIN E.before) \X (DOMAIN E.now)) :
       in' = [bits |-> E.bits, ok |-> {b \in DOMAIN E.before : E.before[b].ok},
              d |-> [b \in DOMAIN E.before |-> [a \in DOMAIN E.now |-> Distance(b, a)]],
              near |-> [b \in DOMAIN E.before |-> {a \in DOMAIN E.now : w[<<b, a>>] = 1}],
              far |-> [b \in DOMAIN E.before |-> {a \in DOMAIN E.now : w[<<b, a>>] = 2}]]
  /\ match' = <<>> /\ losers' = {} /\ round' = 0 /\ UNCHANGED <<tid, l>>
Work == in # Idle /\ ~Finished /\ Turn /\ UNCHANGED <<tid, l>>
End ==
  /\ in # Idle /\ Finished
  /\ Cardinality(Range(E.res)) = Len(E.res) /\ Range(E.res) = {<<a, match[a]>> : a \in DOMAIN match}
  /\ in' = Idle /\ match' = <<>> /\ losers' = {} /\ round' = 0 /\ l' = l + 1 /\ UNCHANGED tid
Refuse == /\ l <= Len(Ev) /\ E.e = "match" /\ in = Idle /\ ~E.ok /\ ~Accepts
          /\ l' = l + 1 /\ UNCHANGED <<in, match, losers, round, tid>>
Next == Begin \/ Work \/ End \/ Refuse

TraceSpec == TraceInit /\ [][Next]_<<in, match, losers, round, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
Fine == in # Idle => OneToOne /\ Limits /\ Competition /\ LosersFree
=============================================================================
