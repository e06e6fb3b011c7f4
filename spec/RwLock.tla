------------------------------- MODULE RwLock -------------------------------
(* Reader-writer lock with upgrade, at the level of its API.                *)
(* A request is a call (Call), becomes known to the lock at an internal     *)
(* instant (Register), is granted at another internal instant (Grant) and   *)
(* then returns (Return).  ReaderFirst selects the variant.                 *)
EXTENDS Naturals, FiniteSets

CONSTANTS Thread, ReaderFirst,
          Policy   \* TRUE: the lock as specified; FALSE: exclusion and upgrade rules only
                   \* (used to tell which property a rejected execution breaks)

VARIABLES held,   \* [Thread -> {"none","read","write"}]: the lock's view
          op,     \* [Thread -> operation of the call in progress, or "none"]
          stage,  \* [Thread -> {"idle","called","waiting","done"}]
          res     \* [Thread -> BOOLEAN]: result of an upgrade or query

vars == <<held, op, stage, res>>

Ops == {"rl", "ru", "wl", "wu", "up", "iu"}

Init == /\ held  = [t \in Thread |-> "none"]
        /\ op    = [t \in Thread |-> "none"]
        /\ stage = [t \in Thread |-> "idle"]
        /\ res   = [t \in Thread |-> FALSE]

Waiting(o) == {t \in Thread : stage[t] = "waiting" /\ op[t] = o}
Readers    == {t \in Thread : held[t] = "read"}
Writers    == {t \in Thread : held[t] = "write"}
\* Threads the in-use query must see.
Using      == Readers \cup Writers \cup {t \in Thread : stage[t] = "waiting"}

\* What a correct client may call.
MayCall(t, o) ==
  CASE o \in {"rl", "wl"} -> held[t] = "none"
    [] o \in {"ru", "up"} -> held[t] = "read"
    [] o = "wu"           -> held[t] = "write"
    [] o = "iu"           -> TRUE

Call(t, o) ==
  /\ stage[t] = "idle" /\ MayCall(t, o)
  /\ op' = [op EXCEPT ![t] = o]
  /\ stage' = [stage EXCEPT ![t] = "called"]
  /\ UNCHANGED <<held, res>>

\* The lock learns of a request to acquire or to upgrade.
Register(t) ==
  /\ stage[t] = "called" /\ op[t] \in {"rl", "wl"}
  /\ stage' = [stage EXCEPT ![t] = "waiting"]
  /\ UNCHANGED <<held, op, res>>

RegisterUpgrade(t) ==
  /\ stage[t] = "called" /\ op[t] = "up"
  /\ IF Waiting("up") = {}
       THEN /\ stage' = [stage EXCEPT ![t] = "waiting"]
            /\ UNCHANGED <<held, res>>
       ELSE \* somebody else is upgrading already: fail and give up the read lock
            /\ stage' = [stage EXCEPT ![t] = "done"]
            /\ held' = [held EXCEPT ![t] = "none"]
            /\ res' = [res EXCEPT ![t] = FALSE]
  /\ UNCHANGED op

GrantableRead == /\ Writers = {}
                 /\ ReaderFirst \/ ~Policy \/ (Waiting("wl") = {} /\ Waiting("up") = {})

GrantableWrite == Writers = {} /\ Readers = {} /\ Waiting("up") = {}

GrantableUpgrade(t) == Writers = {} /\ Readers = {t}

Grantable(t) ==
  /\ stage[t] = "waiting"
  /\ CASE op[t] = "rl" -> GrantableRead
       [] op[t] = "wl" -> GrantableWrite
       [] op[t] = "up" -> GrantableUpgrade(t)

Grant(t) ==
  /\ Grantable(t)
  /\ held' = [held EXCEPT ![t] = IF op[t] = "rl" THEN "read" ELSE "write"]
  /\ stage' = [stage EXCEPT ![t] = "done"]
  /\ res' = [res EXCEPT ![t] = TRUE]
  /\ UNCHANGED op

Release(t) ==
  /\ stage[t] = "called" /\ op[t] \in {"ru", "wu"}
  /\ held' = [held EXCEPT ![t] = "none"]
  /\ stage' = [stage EXCEPT ![t] = "done"]
  /\ UNCHANGED <<op, res>>

Query(t) ==
  /\ stage[t] = "called" /\ op[t] = "iu"
  /\ \E b \in (IF Policy THEN {Using # {}} ELSE BOOLEAN) : res' = [res EXCEPT ![t] = b]
  /\ stage' = [stage EXCEPT ![t] = "done"]
  /\ UNCHANGED <<held, op>>

Return(t) ==
  /\ stage[t] = "done"
  /\ op' = [op EXCEPT ![t] = "none"]
  /\ stage' = [stage EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<held, res>>

Silent(t) == Register(t) \/ RegisterUpgrade(t) \/ Grant(t) \/ Release(t) \/ Query(t)

\* Nothing internal can happen any more: every request is known and none can be granted.
Stuck == \A t \in Thread : /\ stage[t] \in {"idle", "waiting"}
                           /\ stage[t] = "waiting" => ~Grantable(t)

Next == \E t \in Thread : Silent(t) \/ Return(t) \/ \E o \in Ops : Call(t, o)

Spec == Init /\ [][Next]_vars /\ \A t \in Thread : WF_vars(Silent(t)) /\ WF_vars(Return(t))

-----------------------------------------------------------------------------
TypeOK == /\ held \in [Thread -> {"none", "read", "write"}]
          /\ op \in [Thread -> Ops \cup {"none"}]
          /\ stage \in [Thread -> {"idle", "called", "waiting", "done"}]

\* C01
Exclusion == /\ Cardinality(Writers) <= 1
             /\ Writers # {} => Readers = {}
OneUpgrader == Cardinality(Waiting("up")) <= 1
UpgraderHoldsRead == \A t \in Waiting("up") : held[t] = "read"
\* While an upgrade is pending nobody else becomes a writer, hence what the upgrader read stays valid.
UpgradeAtomic == [][\A t \in Thread : t \in Waiting("up") =>
                       \A u \in Thread \ {t} : ~(held[u] # "write" /\ held'[u] = "write")]_vars
FailedUpgradeReleased == [][\A t \in Thread : (op[t] = "up" /\ stage'[t] = "done" /\ ~res'[t])
                              => held'[t] = "none"]_vars

\* C02: blocked requests always have a holder to blame, who can release.
Blame == (Stuck /\ \E t \in Thread : stage[t] = "waiting")
           => \E t \in Thread : held[t] # "none" /\ stage[t] = "idle"
WriterPreference == [][~ReaderFirst =>
                        \A t \in Thread : (held[t] = "none" /\ held'[t] = "read") => Waiting("wl") = {}]_vars
\* Reader-first: a waiting reader is delayed only by an active writer.
ReaderNeverDelayed == ReaderFirst => \A t \in Waiting("rl") : Writers = {} => Grantable(t)
InUseExact == [][\A t \in Thread : (op[t] = "iu" /\ stage[t] = "called" /\ stage'[t] = "done")
                    => (res'[t] <=> Using # {})]_vars

\* Under clients that release what they hold (FairClients), an upgrade and (in the default
\* variant) a write request are eventually granted.
FairClients == \A t \in Thread : WF_vars(Call(t, "ru") \/ Call(t, "up")) /\ WF_vars(Call(t, "wu"))
FairSpec == Spec /\ FairClients
UpgradeEventually == \A t \in Thread : (t \in Waiting("up")) ~> (t \notin Waiting("up"))
SomeProgress == (\E t \in Thread : stage[t] = "waiting") ~> (\E t \in Thread : stage[t] = "done")
=============================================================================
