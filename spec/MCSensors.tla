------------------------------ MODULE MCSensors -----------------------------
EXTENDS Sensors, TLC
CONSTANTS Texts, MaxDim
VARIABLE last
Ids == {[i \in 1..32 |-> IF i = 32 THEN k ELSE 48] : k \in {49, 97}}
BadIds == {<<>>, [i \in 1..32 |-> 103], NoId}
Upper == [i \in 1..32 |-> IF i = 32 THEN 65 ELSE 48]
Entries == {<<"-">>, <<"l">>} \cup {<<"s", t>> : t \in Texts}
S0 == [id |-> NoId, topic |-> <<>>, desc |-> <<>>, extra |-> <<>>, good |-> TRUE]
D0 == [kind |-> "null", id |-> <<"-">>, topic |-> <<"-">>, desc |-> <<"-">>, extra |-> <<"-">>]
Init == sen = [i \in 1..2 |-> S0] /\ doc = [k \in 1..1 |-> D0] /\ known = {} /\ last = <<"start">>
Next ==
  \/ \E i \in 1..2, x \in Ids, t \in Texts : New(i, [S0 EXCEPT !.id = x, !.topic = t, !.extra = t]) /\ last' = <<"new", i>>
  \/ \E i \in 1..2 : Write(i, 1) /\ last' = <<"write", i>>
  \/ \E e \in {<<"-">>, <<"s", Upper>>} \cup {<<"s", b>> : b \in BadIds}, t \in Entries, x \in Entries :
       PutDoc(1, [kind |-> "map", id |-> e, topic |-> t, desc |-> <<"-">>, extra |-> x]) /\ last' = <<"doc">>
  \/ \E i \in 1..2, res \in BOOLEAN, made \in Ids : Acceptable(doc[1]) /\ Read(i, doc[1], res, made) /\ last' = <<"read", i, res, sen[i]>>
Spec == Init /\ [][Next]_<<vars, last>>
\* Written and read back, a sensor is equal.
RoundTrip == \A i \in 1..2 : last = <<"write", i>> =>
  /\ Acceptable(doc[1])
  /\ LET s == sen[i] IN Same([s EXCEPT !.id = IdOf(doc[1].id[2]), !.topic = doc[1].topic[2]], s)
NeverInvalid == last[1] = "read" /\ doc[1].kind = "map" => sen[last[2]].id # NoId
KeepsWhatIsMissing == last[1] = "read" /\ doc[1].topic[1] # "s" => sen[last[2]].topic = last[4].topic
\* What is written for a matrix is readable, and both layouts mean the same.
Shapes == {<<r, c>> : r \in 1..MaxDim, c \in 1..MaxDim}
Rows(r, c) == <<<<"i", r>>, <<"i", c>>, <<"l", [i \in 1..r |-> <<"l", [j \in 1..c |-> <<"i", 10 * i + j>>]>>]>>>>
Flat(r, c) == <<<<"i", r>>, <<"i", c>>, <<"l", [i \in 1..(r * c) |-> <<"i", 10 * (((i - 1) \div c) + 1) + ((i - 1) % c) + 1>>]>>>>
ASSUME \A s \in Shapes : LET r == s[1] IN LET c == s[2] IN
  /\ Readable(Rows(r, c), -1, -1) /\ Readable(Flat(r, c), r, c) /\ Content(Rows(r, c)) = Content(Flat(r, c))
  /\ ~Readable(Rows(r, c), r + 1, -1) /\ ~Readable([Rows(r, c) EXCEPT ![2] = <<"i", c + 1>>], -1, -1)
=============================================================================
