-------------------------------- MODULE Time --------------------------------
(* Time stamps: 64-bit numbers of nanoseconds.  Numbers are decimal: a     *)
(* sign and digits, most significant first, without leading zeros; so the  *)
(* exact values of integers and of floating-point numbers can be compared. *)
EXTENDS Integers, Sequences

\* Naturals as digit sequences; zero is <<>> (leading zeros are stripped).
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s
RECURSIVE Cmp(_, _, _)
Cmp(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE Cmp(a, b, i + 1)
Leq(x, y) == LET a == Strip(x) IN LET b == Strip(y) IN Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Cmp(a, b, 1) <= 0)
Less(x, y) == ~Leq(y, x)
Zeros(n) == [i \in 1..n |-> 0]
Shift(s, n) == s \o Zeros(n)                                          \* times ten to the n
DigitAt(s, k) == IF k < Len(s) THEN s[Len(s) - k] ELSE 0              \* k-th least significant, from 0
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, k, carry) ==
  IF k >= Len(a) /\ k >= Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == DigitAt(a, k) + DigitAt(b, k) + carry IN AddFrom(a, b, k + 1, t \div 10) \o <<t % 10>>
Plus(a, b) == AddFrom(a, b, 0, 0)

\* Conversion of a whole number of a unit of 10^e nanoseconds.
ToNanoseconds(digits, e) == IF digits = <<0>> THEN <<0>> ELSE digits \o Zeros(e)

\* Real numbers: digits d with f of them behind the point.  The result r of converting d units of 10^e nanoseconds is
\* the whole part of the product, which is accurate to a relative 10^-15:   r <= x (1 + eps)  and  r + 1 > x (1 - eps).
WholePartOf(r, d, f, e) ==
  LET x == Shift(d, e) IN                                             \* scaled by 10^f
    /\ Leq(Shift(r, f + 15), Plus(Shift(x, 15), x))
    /\ Less(Shift(x, 15), Plus(Shift(Plus(r, <<1>>), f + 15), x))
\* d (f digits behind the point) is n nanoseconds in units of 10^e nanoseconds, to a relative 10^-15.
IsQuotient(d, f, n, e) ==
  LET x == Shift(n, f) IN LET y == Shift(d, e) IN
    /\ Leq(Shift(y, 15), Plus(Shift(x, 15), x))
    /\ Leq(Shift(x, 15), Plus(Shift(y, 15), x))

\* Text: seconds and the last nine digits from ten digits on.
Text(neg, digits) ==
  LET n == Len(digits) IN LET sign == IF neg THEN <<45>> ELSE <<>> IN
  LET Chars(s) == [i \in DOMAIN s |-> 48 + s[i]] IN
  LET ns == <<110, 115>> IN
    IF n < 10 THEN sign \o Chars(digits) \o ns
    ELSE sign \o Chars(SubSeq(digits, 1, n - 9)) \o <<115, 32>> \o Chars(SubSeq(digits, n - 8, n)) \o ns

\* -2^63 is the invalid time.
Invalid(neg, digits) == neg /\ digits = <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>
=============================================================================
