------------------------------ MODULE IdsTrace ------------------------------
(* Recorded calls on the real identifiers must be steps of Ids.            *)
EXTENDS Ids, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
\* every call leaves exactly the registers the specification says
Seen == \A r \in Reg : reg'[r] = E.regs[r + 1]
Bits(b, n) == [i \in 1..n |-> IF b THEN 1 ELSE 0]
Same == UNCHANGED vars

TNext ==
  \/ Step("gen")   /\ Generate(E.r, E.regs[E.r + 1]) /\ Seen
  \/ Step("load")  /\ Load(E.r, E.v) /\ Seen
  \/ Step("int")   /\ FromInt(E.r, E.n) /\ Seen
  \/ Step("clear") /\ Clear(E.r) /\ Seen
  \/ Step("copy")  /\ Copy(E.r, E.s) /\ Seen
  \/ Step("parse") /\ E.ok \in {0, 1} /\ Parse(E.r, E.txt, E.ok = 1) /\ Seen
  \/ Step("wire")  /\ E.ok /\ E.corr /\ E.msg = reg[E.s] /\ Copy(E.r, E.s) /\ Seen
  \/ Step("badwire") /\ Same /\ Seen /\ E.ok = (E.n = 2)
  \/ /\ Step("text") /\ Same /\ Seen
     /\ LET h == Encode(reg[E.r]) IN
          /\ E.hex = h /\ E.idhex = h /\ E.o1 = h
          /\ E.brief = SubSeq(h, 1, 4)
          /\ E.print = SubSeq(h, 1, 4) \o <<46, 46>> \o SubSeq(h, Len(h) - 3, Len(h))
          /\ E.o2 = E.print
          /\ E.valid = Valid(E.r) /\ E.idvalid = Valid(E.r)
  \/ /\ Step("cmp") /\ Same /\ Seen
     /\ E.eq = Bits(Equal(E.r, E.s), 4)
     /\ E.ne = Bits(~Equal(E.r, E.s), 4)
     /\ E.lt = Bits(Less(reg[E.r], reg[E.s]), 4)
     /\ E.gt = Bits(Less(reg[E.s], reg[E.r]), 2)
     /\ Equal(E.r, E.s) => E.h[1] = E.h[2]
  \* from the concurrent driver: a value appeared in some thread
  \/ Step("new") /\ Generate(0, E.v)

TraceSpec == TraceInit /\ [][TNext]_<<vars, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
