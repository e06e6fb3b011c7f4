------------------------------ MODULE Channels ------------------------------
(* Groups map names to channels; a channel is an object with a typed value *)
(* that several groups can share.  The first element of a value is its     *)
(* type.  Every operation is one atomic step; threads call, take the step, *)
(* and return.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Group, Thread

VARIABLES grp,   \* [Group -> function from names to channel objects]
          obj,   \* sequence of values, indexed by channel object
          call   \* [Thread -> <<stage, operation, result>>]

vars == <<grp, obj, call>>
NoCall == <<"idle", 0, <<>>>>
Init == /\ grp = [g \in Group |-> <<>>]
        /\ obj = <<>>
        /\ call = [t \in Thread |-> NoCall]

TypeOf(v) == v[1]
Names(g) == DOMAIN grp[g]
Value(g, n) == obj[grp[g][n]]
Has(g, n) == n \in Names(g)

Put(f, n, x) == [m \in (DOMAIN f) \cup {n} |-> IF m = n THEN x ELSE f[m]]
Drop(f, n) == [m \in (DOMAIN f) \ {n} |-> f[m]]

CanAdd(g, n) == ~Has(g, n)
Add(g, n, v) == /\ CanAdd(g, n)
                /\ obj' = Append(obj, v)
                /\ grp' = [grp EXCEPT ![g] = Put(@, n, Len(obj) + 1)]

CanGet(g, n, ty) == Has(g, n) /\ TypeOf(Value(g, n)) = ty
Write(g, n, v) == /\ CanGet(g, n, TypeOf(v))
                  /\ obj' = [obj EXCEPT ![grp[g][n]] = v]
                  /\ UNCHANGED grp
Erase(g, n) == Has(g, n) /\ grp' = [grp EXCEPT ![g] = Drop(@, n)] /\ UNCHANGED obj

\* The clone's channels are new objects with the same values.
Clone(g, h) ==
  LET ns == Names(g)
      order == SetToSeq(ns)
      pos(n) == CHOOSE i \in DOMAIN order : order[i] = n
  IN /\ obj' = obj \o [i \in DOMAIN order |-> Value(g, order[i])]
     /\ grp' = [grp EXCEPT ![h] = [n \in ns |-> Len(obj) + pos(n)]]
Share(g, h) == grp' = [grp EXCEPT ![h] = grp[g]] /\ UNCHANGED obj

Equal(g, h) == Names(g) = Names(h) /\ \A n \in Names(g) : Value(g, n) = Value(h, n)
Contents(g) == {<<n, Value(g, n)>> : n \in Names(g)}

-----------------------------------------------------------------------------
\* Concurrent use: o is a record with fields o (operation), g, h, n.
Call(t, o) == call[t] = NoCall /\ call' = [call EXCEPT ![t] = <<"called", o, <<>>>>] /\ UNCHANGED <<grp, obj>>
Result(t, r) == call' = [call EXCEPT ![t] = <<"done", @[2], r>>]
Do(t) ==
  /\ call[t][1] = "called"
  /\ LET o == call[t][2] IN
       \/ o.o = "add" /\ Add(o.g, o.n, <<2, 0, 1>>) /\ Result(t, <<>>)
       \/ o.o = "addt" /\ Add(o.g, o.n, <<4, 0, 1>>) /\ Result(t, <<>>)
       \/ o.o = "remove" /\ Erase(o.g, o.n) /\ Result(t, <<>>)
       \/ o.o = "has" /\ UNCHANGED <<grp, obj>> /\ Result(t, Has(o.g, o.n))
       \/ o.o = "equal" /\ UNCHANGED <<grp, obj>> /\ Result(t, Equal(o.g, o.h))
       \/ o.o = "clone" /\ UNCHANGED <<grp, obj>> /\ Result(t, Contents(o.g))
       \/ o.o = "print" /\ UNCHANGED <<grp, obj>> /\ Result(t, Names(o.g))
Return(t) == call[t][1] = "done" /\ call' = [call EXCEPT ![t] = NoCall] /\ UNCHANGED <<grp, obj>>

-----------------------------------------------------------------------------
\* Properties of the sequential operations, checked on a small instance.
CONSTANTS Name, Val
Next == /\ UNCHANGED call
        /\ \E g, h \in Group, n \in Name, v \in Val :
             Add(g, n, v) \/ Write(g, n, v) \/ Erase(g, n) \/ (g # h /\ Clone(g, h)) \/ (g # h /\ Share(g, h))
Spec == Init /\ [][Next]_vars
EqualSymmetric == \A g, h \in Group : Equal(g, h) <=> Equal(h, g)
\* A write through one group changes another only if they share the channel.
WriteLocal == [][\A g, h \in Group, n, m \in Name, v \in Val :
                   (Write(g, n, v) /\ Has(h, m) /\ grp[h][m] # grp[g][n]) => Value(h, m)' = Value(h, m)]_vars
CloneIndependent == [][\A g, h \in Group : (g # h /\ Clone(g, h)) =>
                   /\ Equal(g, h)'
                   /\ \A n \in Names(g) : \A k \in Group \ {h} : \A m \in DOMAIN grp'[k] : grp'[k][m] # grp'[h][n]]_vars
TypeStable == [][\A i \in DOMAIN obj : TypeOf(obj'[i]) = TypeOf(obj[i])]_vars
=============================================================================
