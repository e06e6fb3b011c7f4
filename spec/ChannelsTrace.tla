--------------------------- MODULE ChannelsTrace ---------------------------
(* Recorded operations on real channel groups must be steps of Channels.   *)
EXTENDS Channels, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid

AsSet(s) == {s[i] : i \in DOMAIN s}
Shown(c) == {<<x.n, x.v>> : x \in AsSet(c)}
\* The contents of all groups afterwards.
Seen == \A g \in Group : Shown(E.all[g + 1]) = {<<n, obj'[grp'[g][n]]>> : n \in DOMAIN grp'[g]}
Same == UNCHANGED <<grp, obj>>

Sequential ==
  /\ UNCHANGED call
  /\ \/ Step("add") /\ E.ok = CanAdd(E.g, E.n) /\ IF E.ok THEN Add(E.g, E.n, E.v) ELSE Same
     \/ Step("write") /\ E.ok = CanGet(E.g, E.n, TypeOf(E.v)) /\ IF E.ok THEN Write(E.g, E.n, E.v) ELSE Same
     \/ Step("get") /\ E.ok = CanGet(E.g, E.n, E.ty) /\ (E.ok => E.v = Value(E.g, E.n)) /\ Same
     \/ Step("has") /\ E.res = Has(E.g, E.n) /\ Same
     \/ Step("remove") /\ E.ok = Has(E.g, E.n) /\ IF E.ok THEN Erase(E.g, E.n) ELSE Same
     \/ Step("clone") /\ Clone(E.g, E.h)
     \/ Step("share") /\ Share(E.g, E.h)
     \/ Step("equal") /\ E.res = (IF Equal(E.g, E.h) THEN 1 ELSE 0) /\ Same
     \/ Step("print") /\ AsSet(E.res) = Names(E.g) /\ Len(E.res) = Cardinality(Names(E.g)) /\ Same
  /\ Seen

Observed(o, r, res) ==
  CASE o \in {"has", "equal"} -> res = <<IF r THEN 1 ELSE 0>>
    [] o = "clone" -> Shown(res) = r
    [] o = "print" -> AsSet(res) = r
    [] OTHER -> TRUE
Concurrent ==
  \/ Step("c") /\ Call(E.t, E)
  \/ Step("r") /\ call[E.t][1] = "done" /\ Observed(call[E.t][2].o, call[E.t][3], E.res) /\ Return(E.t)
  \/ l <= Len(Ev) /\ (\E t \in Thread : Do(t)) /\ UNCHANGED <<tid, l>>

TraceSpec == TraceInit /\ [][Sequential \/ Concurrent]_<<vars, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
