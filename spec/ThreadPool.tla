----------------------------- MODULE ThreadPool -----------------------------
(* A pool of N workers with exclusivity groups, at the level of its API.    *)
(* Tasks are identified by the client; group 0 means "no group".            *)
(* Internal (silent) steps: Accept/Refuse an enqueue, Pick a task, Retire a *)
(* finished task, DoStop, DoWait, DoQuery, DoDestroy.                       *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Thread,   \* client threads and workers (tasks may call the pool themselves)
          Task,
          Check     \* subset of {"once","order","progress"}: which guarantees are enforced

VARIABLES nworkers, \* number of workers of this pool
          st,       \* [Task -> "new","calling","queued","picked","running","ended","retired","refused"]
          grp,      \* [Task -> group]
          queue,    \* accepted tasks not yet picked, in order of acceptance
          stopped,  \* the pool no longer accepts tasks
          gone,     \* the pool has been destroyed
          call      \* [Thread -> call in progress: <<operation, stage, argument, result>>]

vars == <<nworkers, st, grp, queue, stopped, gone, call>>

NoCall == <<"none", "idle", 0, 0>>

Init(n) == /\ nworkers = n
           /\ st = [k \in Task |-> "new"]
           /\ grp = [k \in Task |-> 0]
           /\ queue = <<>>
           /\ stopped = FALSE
           /\ gone = FALSE
           /\ call = [t \in Thread |-> NoCall]

In(t, o, s) == call[t][1] = o /\ call[t][2] = s

Active  == {k \in Task : st[k] \in {"picked", "running", "ended"}}
Busy(g) == \E k \in Active : g # 0 /\ grp[k] = g
Empty   == queue = <<>> /\ Active = {}
\* Positions of the queue whose task may be started.
Startable == {i \in 1..Len(queue) : ~Busy(grp[queue[i]])}
MayPick(i) == /\ Cardinality(Active) < nworkers
              /\ "order" \in Check => i \in Startable /\ \A j \in Startable : i <= j

Invoke(t, o, a) == /\ call[t] = NoCall /\ ~gone
                   /\ call' = [call EXCEPT ![t] = <<o, "called", a, 0>>]
Finish(t, r)    == call' = [call EXCEPT ![t] = <<@[1], "done", @[3], r>>]

CallEnqueue(t, k, g) ==
  /\ st[k] = "new" /\ Invoke(t, "enq", k)
  /\ st' = [st EXCEPT ![k] = "calling"]
  /\ grp' = [grp EXCEPT ![k] = g]
  /\ UNCHANGED <<nworkers, queue, stopped, gone>>

Accept(t) ==
  /\ In(t, "enq", "called") /\ ~stopped
  /\ LET k == call[t][3] IN
       /\ st' = [st EXCEPT ![k] = "queued"]
       /\ queue' = Append(queue, k)
  /\ Finish(t, 1)
  /\ UNCHANGED <<nworkers, grp, stopped, gone>>

Refuse(t) ==
  /\ In(t, "enq", "called") /\ stopped
  /\ st' = [st EXCEPT ![call[t][3]] = "refused"]
  /\ Finish(t, 0)
  /\ UNCHANGED <<nworkers, grp, queue, stopped, gone>>

Pick(i) ==
  /\ i \in 1..Len(queue) /\ MayPick(i)
  /\ st' = [st EXCEPT ![queue[i]] = "picked"]
  /\ queue' = SubSeq(queue, 1, i - 1) \o SubSeq(queue, i + 1, Len(queue))
  /\ UNCHANGED <<nworkers, grp, stopped, gone, call>>

Start(k) == /\ st[k] = "picked" /\ st' = [st EXCEPT ![k] = "running"]
            /\ UNCHANGED <<nworkers, grp, queue, stopped, gone, call>>
End(k)   == /\ st[k] = "running" /\ st' = [st EXCEPT ![k] = "ended"]
            /\ UNCHANGED <<nworkers, grp, queue, stopped, gone, call>>
Retire(k) == /\ st[k] = "ended" /\ st' = [st EXCEPT ![k] = "retired"]
             /\ UNCHANGED <<nworkers, grp, queue, stopped, gone, call>>

CallStop(t) == Invoke(t, "stop", 0) /\ UNCHANGED <<nworkers, st, grp, queue, stopped, gone>>
DoStop(t)   == /\ In(t, "stop", "called") /\ stopped' = TRUE /\ Finish(t, 0)
               /\ UNCHANGED <<nworkers, st, grp, queue, gone>>

CallWait(t) == Invoke(t, "wait", 0) /\ UNCHANGED <<nworkers, st, grp, queue, stopped, gone>>
DoWait(t)   == /\ In(t, "wait", "called")
               /\ "progress" \in Check => Empty
               /\ Finish(t, 0)
               /\ UNCHANGED <<nworkers, st, grp, queue, stopped, gone>>

CallQuery(t) == Invoke(t, "act", 0) /\ UNCHANGED <<nworkers, st, grp, queue, stopped, gone>>
DoQuery(t)   == /\ In(t, "act", "called") /\ Finish(t, Cardinality(Active))
                /\ UNCHANGED <<nworkers, st, grp, queue, stopped, gone>>

CallDestroy(t) == Invoke(t, "dtor", 0) /\ UNCHANGED <<nworkers, st, grp, queue, stopped, gone>>
\* Destruction first closes the pool, then ends when all accepted tasks are finished.
Close(t)       == /\ In(t, "dtor", "called") /\ stopped' = TRUE
                  /\ call' = [call EXCEPT ![t] = <<"dtor", "closing", 0, 0>>]
                  /\ UNCHANGED <<nworkers, st, grp, queue, gone>>
DoDestroy(t)   == /\ In(t, "dtor", "closing")
                  /\ Check \cap {"once", "progress"} # {} => Empty
                  /\ gone' = TRUE /\ Finish(t, 0)
                  /\ UNCHANGED <<nworkers, st, grp, queue, stopped>>

Return(t) == /\ call[t][2] = "done"
             /\ call' = [call EXCEPT ![t] = NoCall]
             /\ UNCHANGED <<nworkers, st, grp, queue, stopped, gone>>

SilentOf(t) == Accept(t) \/ Refuse(t) \/ DoStop(t) \/ DoWait(t) \/ DoQuery(t) \/ Close(t) \/ DoDestroy(t)
Silent == \/ \E t \in Thread : SilentOf(t)
          \/ \E i \in 1..Len(queue) : Pick(i)
          \/ \E k \in Task : Retire(k)

\* No internal step is possible (tasks may be running and calls may be blocked).
PickPossible == Cardinality(Active) < nworkers /\ Startable # {}
Stuck == /\ ~PickPossible
         /\ \A k \in Task : st[k] \notin {"picked", "ended", "calling"}
         /\ \A t \in Thread : \/ call[t] = NoCall
                              \/ In(t, "wait", "called") /\ ~Empty
                              \/ In(t, "dtor", "closing") /\ ~Empty

-----------------------------------------------------------------------------
TypeOK == /\ Cardinality(Active) <= nworkers
          /\ \A i, j \in 1..Len(queue) : i # j => queue[i] # queue[j]
          /\ \A k \in Task : (st[k] = "queued") <=> (\E i \in 1..Len(queue) : queue[i] = k)
\* C04
NoOverlap == \A j, k \in Active : (j # k /\ grp[j] # 0) => grp[j] # grp[k]
Overtake == [][\A i \in 1..Len(queue) : st'[queue[i]] = "picked" =>
                 \A j \in 1..(i - 1) : Busy(grp[queue[j]])]_vars
\* C03
Gone == gone => \A k \in Task : st[k] \in {"new", "retired", "refused"}
StopFinal == [][stopped => stopped' /\ \A k \in Task : ~(st[k] # "queued" /\ st'[k] = "queued")]_vars
Once == [][\A k \in Task : st[k] \in {"retired", "refused"} => st'[k] = st[k]]_vars
\* C05: the only reasons why nothing moves.
Conserving == Stuck => (queue = <<>> \/ Cardinality(Active) = nworkers \/ \A i \in 1..Len(queue) : Busy(grp[queue[i]]))
=============================================================================
