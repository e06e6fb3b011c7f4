------------------------------- MODULE MCTime -------------------------------
(* The digit arithmetic of Time agrees with TLC's integers, and formatting is injective and loses nothing. *)
EXTENDS Time, FiniteSets, TLC
CONSTANT Max
VARIABLES a, b
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Digits(n \div 10) \o <<n % 10>>
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE Value(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)]
Numbers == 0..Max \cup {95, 99, 100, 101, 999, 1000, 12345}
Init == a \in Numbers /\ b \in Numbers
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Arithmetic == /\ Leq(Digits(a), Digits(b)) = (a <= b) /\ Less(Digits(a), Digits(b)) = (a < b)
              /\ Value(Plus(Digits(a), Digits(b))) = a + b
              /\ Value(ToNanoseconds(Digits(a), 3)) = 1000 * a
\* a / 100 units of ten nanoseconds: the whole part is unique but for rounding
WholeUnique == Cardinality({r \in 0..(Max \div 8 + 12) : WholePartOf(Digits(r), Digits(a), 2, 1)}) <= 2
               /\ (a <= Max => WholePartOf(Digits(a \div 10), Digits(a), 2, 1))
Big(n) == <<1, 2, 3>> \o [i \in 1..6 |-> 0] \o Digits(1000 + n)
Readable == /\ Text(FALSE, Digits(a)) = Text(FALSE, Digits(b)) => a = b
            /\ Text(TRUE, Big(a)) = Text(TRUE, Big(b)) => a = b
            /\ Text(FALSE, Digits(a)) # Text(TRUE, Digits(b))
            /\ Len(Text(FALSE, Big(a))) = Len(Big(a)) + 4
=============================================================================
