---------------------------- MODULE SensorsTrace ----------------------------
(* Recorded reading and writing must be that of Sensors.                   *)
EXTENDS Sensors, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
D0 == [kind |-> "null", id |-> <<"-">>, topic |-> <<"-">>, desc |-> <<"-">>, extra |-> <<"-">>]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ sen = <<>> /\ doc = [k \in 1..3 |-> D0] /\ known = {}
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Seen == E.sen = sen'
Made == E.sen[E.i].id
Keep == UNCHANGED vars
MatrixOk == IF Open(E.m) THEN TRUE
            ELSE /\ E.ok = Readable(E.m, E.a, E.b)
                 /\ E.ok => E.rows = E.m[1][2] /\ E.cols = E.m[2][2] /\ E.val = Content(E.m)
\* A matrix written and read back, once as a node, once as text and once through a file; or refused because it is empty.
MatrixSame == /\ E.ok = (E.rows > 0 /\ E.cols > 0)
              /\ E.ok => \A k \in DOMAIN E.back : E.back[k] = <<E.rows, E.cols, E.val>>
GetOk == LET e == E.entry IN
  /\ E.has = (E.map /\ e[1] # "-")
  /\ E.int = (IF E.map /\ e[1] = "i" THEN <<TRUE, e[2]>> ELSE <<FALSE, -7>>)
  /\ E.str = (E.map /\ e[1] \in {"i", "x"})
  /\ E.list = (IF E.map /\ e[1] = "l" /\ \A j \in DOMAIN e[2] : e[2][j][1] = "i"
               THEN <<TRUE, [j \in DOMAIN e[2] |-> e[2][j][2]]>> ELSE <<FALSE, <<-7>>>>)
Next ==
  \/ Step("start") /\ sen' = E.sen /\ (\A i \in DOMAIN E.sen : IsFresh(E.sen[i].id)) /\ known' = {E.sen[i].id : i \in DOMAIN E.sen}
     /\ Cardinality(known') = Len(E.sen) /\ UNCHANGED doc /\ Seen
  \/ Step("new") /\ (IF "id" \in DOMAIN E THEN E.ok = (E.id # NoId) ELSE E.ok /\ IsFresh(Made))
     /\ (IF E.ok THEN New(E.i, [id |-> IF "id" \in DOMAIN E THEN E.id ELSE Made, topic |-> E.topic, desc |-> E.desc,
                                extra |-> <<48>>, good |-> TRUE]) ELSE Keep) /\ Seen
  \/ Step("setid") /\ E.ok = (E.id # NoId) /\ (IF E.ok THEN New(E.i, [sen[E.i] EXCEPT !.id = E.id]) ELSE Keep) /\ Seen
  \/ Step("wipe") /\ New(E.i, [sen[E.i] EXCEPT !.id = NoId]) /\ Seen
  \/ Step("getid") /\ E.ok = (sen[E.i].id # NoId) /\ TRUE = (E.ok => E.id = sen[E.i].id) /\ Keep /\ Seen
  \/ Step("settopic") /\ New(E.i, [sen[E.i] EXCEPT !.topic = E.topic]) /\ Seen
  \/ Step("setdesc") /\ New(E.i, [sen[E.i] EXCEPT !.desc = E.desc]) /\ Seen
  \/ Step("setextra") /\ New(E.i, [sen[E.i] EXCEPT !.extra = E.extra]) /\ Seen
  \/ Step("setgood") /\ New(E.i, [sen[E.i] EXCEPT !.good = E.good]) /\ Seen
  \/ Step("random") /\ IsFresh(Made) /\ New(E.i, [sen[E.i] EXCEPT !.id = Made]) /\ Seen
  \/ Step("copy") /\ New(E.i, sen[E.k]) /\ Seen
  \/ Step("valid") /\ E.res = Valid(sen[E.i]) /\ Keep /\ Seen
  \/ Step("equal") /\ E.res = Same(sen[E.i], sen[E.k]) /\ E.not = ~E.res /\ E.silent = E.res /\ E.loud = E.res /\ Keep /\ Seen
  \/ Step("write") /\ E.ok = (sen[E.i].id # NoId) /\ (IF E.ok THEN Write(E.i, E.k) ELSE Keep) /\ Seen
  \/ Step("doc") /\ PutDoc(E.k, E.doc) /\ Seen
  \/ Step("read") /\ E.ok = Acceptable(doc[E.k]) /\ (IF E.ok THEN Read(E.i, doc[E.k], E.res, Made) ELSE Keep) /\ Seen
  \/ Step("decode") /\ TRUE = MatrixOk /\ Keep
  \/ Step("matrix") /\ TRUE = MatrixSame /\ Keep
  \/ Step("get") /\ TRUE = GetOk /\ Keep
  \/ Step("nofile") /\ TRUE = (E.res = <<FALSE, FALSE>>) /\ Keep
TraceSpec == TraceInit /\ [][Next]_<<vars, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
