------------------------------- MODULE Serial -------------------------------
(* A serialization is a partial bijection, per type, between values and    *)
(* messages: a value always gives the same message, no two values give the *)
(* same message, reading a message gives the value that would be written   *)
(* as exactly that message, and anything else is refused.                  *)
EXTENDS FiniteSets

VARIABLE known   \* set of <<type, value, message>> established so far
Init == known = {}
Consistent == \A x, y \in known : x[1] = y[1] => (x[2] = y[2] <=> x[3] = y[3])

Fits(ty, v, m) == \A x \in known : x[1] = ty => (x[2] = v <=> x[3] = m)
Learn(ty, v, m) == Fits(ty, v, m) /\ known' = known \cup {<<ty, v, m>>}
Write(ty, v, m) == Learn(ty, v, m)
Written(ty, m) == \E x \in known : x[1] = ty /\ x[3] = m
\* A message that was written must be read, as what was written.
Read(ty, m, ok, v) == IF ok THEN Learn(ty, v, m) ELSE ~Written(ty, m) /\ UNCHANGED known

CONSTANTS Type, Value, Message
Next == \E ty \in Type, v \in Value, m \in Message, ok \in BOOLEAN : Write(ty, v, m) \/ Read(ty, m, ok, v)
Spec == Init /\ [][Next]_known
Functional == \A x \in known : Cardinality({y \in known : y[1] = x[1] /\ y[2] = x[2]}) = 1
=============================================================================
