----------------------------- MODULE TimeTrace ------------------------------
(* Recorded conversions must be those of Time.                             *)
EXTENDS Time, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
\* Numbers: [sign, digits] and, for real numbers, [sign, digits, places]
SameSign(x, y) == x[1] = y[1] \/ Strip(x[2]) = <<>> \/ Strip(y[2]) = <<>>
Next ==
  \/ Step("text") /\ TRUE = (E.text = Text(E.t[1], E.t[2]))
  \/ Step("valid") /\ TRUE = (E.res = ~Invalid(E.t[1], E.t[2])) /\ TRUE = Invalid(E.marker[1], E.marker[2])
  \/ Step("whole") /\ TRUE = (E.res[2] = ToNanoseconds(E.v[2], E.p)) /\ TRUE = SameSign(E.res, E.v)
  \/ Step("from") /\ TRUE = WholePartOf(E.res[2], E.v[2], E.v[3], E.p) /\ TRUE = SameSign(E.res, E.v)
  \/ Step("to") /\ TRUE = IsQuotient(E.res[2], E.res[3], E.t[2], E.p) /\ TRUE = SameSign(E.res, E.t)
  \/ Step("now") /\ TRUE = (Leq(E.before[2], E.now[2]) /\ Leq(E.now[2], E.after[2]) /\ ~E.now[1])
TraceSpec == TraceInit /\ [][Next]_<<tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
