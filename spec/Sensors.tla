------------------------------ MODULE Sensors -------------------------------
(* Sensors and matrices as YAML documents.                                 *)
(* A document entry is <<"-">> (missing), <<"s", text>> (a scalar),        *)
(* <<"l">> (a list), and in the documents of matrices <<"i", n>> (a whole  *)
(* number), <<"x">> (a scalar that is no number) and <<"l", items>>.       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES sen,    \* the sensors: [id, topic, desc, extra, good]; id is 32 hexadecimal digits (character codes)
          doc,    \* the documents: [kind: "map" or something else, id, topic, desc, extra]
          known   \* identifiers that were used so far

vars == <<sen, doc, known>>
Bytes == 16
IsHex(c)  == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
Lower(c)  == IF c \in 65..70 THEN c + 32 ELSE c
HexId(txt) == Len(txt) = 2 * Bytes /\ \A i \in DOMAIN txt : IsHex(txt[i])
NoId == [i \in 1..(2 * Bytes) |-> 48]
IdOf(txt) == [i \in DOMAIN txt |-> Lower(txt[i])]
IsFresh(x) == HexId(x) /\ IdOf(x) = x /\ x # NoId /\ x \notin known

Learn(x) == known' = known \cup {x}
New(i, s) == sen' = [sen EXCEPT ![i] = s] /\ Learn(s.id) /\ UNCHANGED doc
Valid(s) == s.id # NoId /\ s.good
Same(s, t) == s.id = t.id /\ s.topic = t.topic /\ s.desc = t.desc /\ s.extra = t.extra

\* Reading: the entries of the document replace those of the sensor; an identifier that is missing is made up; one
\* that is malformed is refused.  The result tells whether the sensor's own entry was there.
HasText(e) == e[1] = "s"
Acceptable(d) == d.kind = "map" /\ HasText(d.id) => HexId(d.id[2]) /\ IdOf(d.id[2]) # NoId
Read(i, d, res, made) ==
  IF d.kind # "map" THEN res = FALSE /\ UNCHANGED vars
  ELSE LET id == IF HasText(d.id) THEN IdOf(d.id[2]) ELSE made IN
       /\ (~HasText(d.id) => IsFresh(made))
       /\ New(i, [sen[i] EXCEPT !.id = id,
                                !.topic = IF HasText(d.topic) THEN d.topic[2] ELSE @,
                                !.desc = IF HasText(d.desc) THEN d.desc[2] ELSE @,
                                !.extra = IF HasText(d.extra) THEN d.extra[2] ELSE @])
       /\ res = HasText(d.extra)
DocOf(s) == [kind |-> "map", id |-> <<"s", s.id>>, topic |-> <<"s", s.topic>>, desc |-> <<"s", s.desc>>, extra |-> <<"s", s.extra>>]
Write(i, k) == sen[i].id # NoId /\ doc' = [doc EXCEPT ![k] = DocOf(sen[i])] /\ UNCHANGED <<sen, known>>
PutDoc(k, d) == doc' = [doc EXCEPT ![k] = d] /\ UNCHANGED <<sen, known>>

(* Matrices: a document <<rows, cols, data>> read into a matrix of A rows and B columns (-1: any). *)
IsNumber(e) == e[1] = "i"
Number(e) == e[2]
\* A matrix written row after row without structure; one-element lists count as their element.
LinearItem(e) == IsNumber(e) \/ (e[1] = "l" /\ Len(e[2]) = 1 /\ IsNumber(e[2][1]))
LinearValue(e) == IF IsNumber(e) THEN Number(e) ELSE Number(e[2][1])
Linear(r, c, d) == Len(d) = r * c /\ \A i \in DOMAIN d : LinearItem(d[i])
\* One list per row.
RowItem(e, c) == e[1] = "l" /\ Len(e[2]) = c /\ \A j \in DOMAIN e[2] : IsNumber(e[2][j])
ByRows(r, c, d) == Len(d) = r /\ \A i \in DOMAIN d : RowItem(d[i], c)
Readable(m, A, B) ==
  /\ m[1][1] = "i" /\ m[2][1] = "i" /\ m[3][1] = "l"
  /\ LET r == m[1][2] IN LET c == m[2][2] IN
       /\ r >= 0 /\ c >= 0 /\ (A = -1 \/ A = r) /\ (B = -1 \/ B = c)
       /\ (Linear(r, c, m[3][2]) \/ ByRows(r, c, m[3][2]))
\* The value, row after row.
Content(m) ==
  LET r == m[1][2] IN LET c == m[2][2] IN LET d == m[3][2] IN
    IF Linear(r, c, d) THEN [i \in DOMAIN d |-> LinearValue(d[i])]
    ELSE [i \in 1..(r * c) |-> Number(d[((i - 1) \div c) + 1][2][((i - 1) % c) + 1])]
\* No statement is made about documents of empty matrices.
Open(m) == m[1][1] = "i" /\ m[2][1] = "i" /\ (m[1][2] = 0 \/ m[2][2] = 0)
=============================================================================
