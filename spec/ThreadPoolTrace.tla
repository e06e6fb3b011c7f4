-------------------------- MODULE ThreadPoolTrace --------------------------
(* Recorded executions of the real pool must be behaviours of ThreadPool.  *)
EXTENDS ThreadPool, Integers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]

\* What the task does with its argument; -1 stands for its exception.
Expected(e) == IF e.x THEN -1 ELSE 2 * e.a + 1
EnqueueOf(k) == CHOOSE e \in {Ev[i] : i \in 1..Len(Ev)} : e.e = "c" /\ e.o = "enq" /\ e.k = k

TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1
             /\ Init(Traces[tid].n)

Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
Is(o) == E.o = o

TCall == /\ Step("c")
         /\ \/ Is("enq")  /\ CallEnqueue(E.t, E.k, E.g)
            \/ Is("stop") /\ CallStop(E.t)
            \/ Is("wait") /\ CallWait(E.t)
            \/ Is("act")  /\ CallQuery(E.t)
            \/ Is("dtor") /\ CallDestroy(E.t)
TReturn == /\ Step("r") /\ In(E.t, E.o, "done")
           /\ Is("enq") => (call[E.t][4] = 1) = E.v
           /\ (Is("act") /\ "progress" \in Check) => call[E.t][4] = E.v
           /\ Return(E.t)
\* A task body begins, with the argument it was given, or ends.
TStart == Step("s") /\ Start(E.k) /\ ("once" \in Check => E.a = EnqueueOf(E.k).a)
TEnd   == Step("f") /\ End(E.k)
\* The client looked at a future: v is its value, -1 an exception, -2 not ready, -3 broken promise.
TFuture == /\ Step("u") /\ UNCHANGED vars
           /\ "once" \in Check =>
                IF E.v = -2 THEN st[E.k] # "retired"
                ELSE st[E.k] \in {"ended", "retired"} /\ E.v = Expected(EnqueueOf(E.k))
\* Blocking: only waiting and destroying may block.
TPark  == /\ Step("p") /\ UNCHANGED vars
          /\ "progress" \in Check => (In(E.t, "wait", "called") \/ In(E.t, "dtor", "closing"))
TQuiet == /\ Step("q") /\ UNCHANGED vars
          /\ "progress" \in Check => Stuck
          \* startable tasks do not wait for busy groups
          /\ ("order" \in Check /\ (\E k \in Active : grp[k] # 0)) =>
               ~PickPossible /\ \A k \in Task : st[k] # "picked"
TStall == "progress" \notin Check /\ (Step("livelock") \/ Step("hang")) /\ UNCHANGED vars
TSilent == l <= Len(Ev) /\ Silent /\ UNCHANGED <<tid, l>>

TraceNext == TCall \/ TReturn \/ TStart \/ TEnd \/ TFuture \/ TPark \/ TQuiet \/ TStall \/ TSilent
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
