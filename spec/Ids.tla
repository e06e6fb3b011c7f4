-------------------------------- MODULE Ids --------------------------------
(* Identifiers: registers holding values of Bytes bytes.  The first half is *)
(* the first 64 bit word, least significant byte first, and so on.          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Reg, Bytes

VARIABLES reg,    \* [Reg -> value]
          issued  \* values generated so far

vars == <<reg, issued>>

Invalid  == [i \in 1..Bytes |-> 0]
IsValue(v) == Len(v) = Bytes /\ \A i \in 1..Bytes : v[i] \in 0..255

\* Text is a sequence of character codes.
HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
IsHex(c)   == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
Digit(c)   == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
Encode(v)  == [i \in 1..(2 * Bytes) |-> LET b == v[(i + 1) \div 2] IN HexChar(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
WellFormed(txt) == Len(txt) = 2 * Bytes /\ \A i \in 1..Len(txt) : IsHex(txt[i])
Decode(txt) == [i \in 1..Bytes |-> 16 * Digit(txt[2 * i - 1]) + Digit(txt[2 * i])]

\* Order: by the first word, then by the second, each as an unsigned number.
Half == Bytes \div 2
Weight(v) == [i \in 1..Bytes |-> IF i <= Half THEN v[Half + 1 - i] ELSE v[Bytes + Half + 1 - i]]
Less(u, v) == LET a == Weight(u)
                  b == Weight(v)
              IN \E i \in 1..Bytes : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

RECURSIVE Decimal(_, _)
Decimal(n, width) == IF width = 0 THEN <<>> ELSE Append(Decimal(n \div 10, width - 1), 48 + (n % 10))

Init == reg = [r \in Reg |-> Invalid] /\ issued = {}

Set(r, v) == reg' = [reg EXCEPT ![r] = v]
Generate(r, v) == /\ IsValue(v) /\ v # Invalid /\ v \notin issued
                  /\ Set(r, v) /\ issued' = issued \cup {v}
Load(r, v)   == IsValue(v) /\ Set(r, v) /\ UNCHANGED issued
Copy(r, s)   == Set(r, reg[s]) /\ UNCHANGED issued
Clear(r)     == Set(r, Invalid) /\ UNCHANGED issued
FromInt(r, n) == Set(r, Decode(Decimal(n, 2 * Bytes))) /\ UNCHANGED issued
Parse(r, txt, ok) == /\ ok = WellFormed(txt)
                     /\ IF ok THEN Set(r, Decode(txt)) ELSE UNCHANGED reg
                     /\ UNCHANGED issued
\* Observations
Valid(r)     == reg[r] # Invalid
Equal(r, s)  == reg[r] = reg[s]

-----------------------------------------------------------------------------
\* Checked on a small identifier.
CONSTANT Value, Text
Next == \/ \E r \in Reg, v \in Value : Generate(r, v) \/ Load(r, v)
        \/ \E r, s \in Reg : Copy(r, s)
        \/ \E r \in Reg : Clear(r)
        \/ \E r \in Reg, txt \in Text, ok \in BOOLEAN : Parse(r, txt, ok)
Spec == Init /\ [][Next]_vars
RoundTrip == \A r \in Reg : WellFormed(Encode(reg[r])) /\ Decode(Encode(reg[r])) = reg[r]
TotalOrder == \A r, s \in Reg : (Less(reg[r], reg[s]) \/ Less(reg[s], reg[r])) <=> ~Equal(r, s)
Asymmetric == \A r, s \in Reg : ~(Less(reg[r], reg[s]) /\ Less(reg[s], reg[r]))
Transitive == \A r, s, t \in Reg : Less(reg[r], reg[s]) /\ Less(reg[s], reg[t]) => Less(reg[r], reg[t])
IssuedValid == Invalid \notin issued
=============================================================================
