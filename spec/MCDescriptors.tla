--------------------------- MODULE MCDescriptors ----------------------------
EXTENDS Descriptors, TLC
CONSTANTS Values, NumRefs
VARIABLE last
Init == /\ ext \in [1..2 -> [1..1 -> Values]]
        /\ ref = [i \in 1..NumRefs |-> None] /\ last = <<"start">>
Bits == {0, 7}
Next ==
  \/ \E i \in DOMAIN ref, k \in DOMAIN ext : Bind(i, External(k)) /\ last' = <<"wrap", i>>
  \/ \E i \in DOMAIN ref : ref[i].kind = "none" /\ Bind(i, Own(<<0>>)) /\ last' = <<"alloc", i>>
  \/ \E i, k \in DOMAIN ref : AssignFrom(i, k) /\ last' = <<"assign", i, k>>
  \/ \E i \in DOMAIN ref, b \in Bits : HasBit(Bytes(ref[i]), b) /\ Put(i, SetBitIn(Bytes(ref[i]), b)) /\ last' = <<"set", i, b, Bytes(ref[i])>>
  \/ \E i \in DOMAIN ref, b \in Bits : HasBit(Bytes(ref[i]), b) /\ Put(i, FlipBitIn(Bytes(ref[i]), b)) /\ last' = <<"flip", i, b, Bytes(ref[i])>>
Spec == Init /\ [][Next]_<<vars, last>>
AssignedEqual == last[1] = "assign" => Equal(ref[last[2]], ref[last[3]]) \/ ~HasData(ref[last[3]])
OneBit == last[1] \in {"set", "flip"} =>
  LET d == Bytes(ref[last[2]]) IN \A b \in 0..7 :
    Bit(d, b) = (IF b # last[3] THEN Bit(last[4], b) ELSE IF last[1] = "set" THEN 1 ELSE 1 - Bit(last[4], b))
\* The derived quantities agree with each other, on all small collections.
ASSUME \A x, y \in {0, 1, 2, 90, 165, 255} : Differing(<<x>>, <<y>>) = Cardinality({b \in 0..7 : Bit(<<x>>, b) # Bit(<<y>>, b)})
ASSUME \A x \in Byte : Differing(<<x>>, <<0>>) = Ones[x] /\ Differing(<<x>>, <<255 - x>>) = 8
ASSUME \A x, y, z \in {0, 1, 3, 85, 170, 254, 255} :
  LET ds == <<<<x>>, <<y>>, <<z>>>> IN
    /\ \A d \in {<<0>>, <<255>>, <<x>>, <<90>>} : AbsDevTimesN(ds, 1) <= Sum([k \in 1..3 |-> Differing(ds[k], d)])
    /\ VarTimesN2(ds, 1) * 3 = Sum([k \in 1..3 |-> ToMeanTimesN2(ds, ds[k])])
    /\ \E k \in 1..3 : IsClosest(ds, k)
=============================================================================
