---------------------------- MODULE MCThreadPool ----------------------------
EXTENDS ThreadPool
CONSTANTS N, Groups
MCInit == Init(N)
MCNext == \/ Silent
          \/ \E k \in Task : Start(k) \/ End(k)
          \/ \E t \in Thread : Return(t)
          \/ /\ \A u \in Thread : call[u][1] # "dtor"   \* clients do not use a pool being destroyed
             /\ \E t \in Thread :
                  \/ CallStop(t) \/ CallWait(t) \/ CallQuery(t)
                  \/ (\A u \in Thread : call[u] = NoCall) /\ CallDestroy(t)
                  \/ \E k \in Task, g \in Groups :
                       /\ \A j \in Task : j < k => st[j] # "new"
                       /\ CallEnqueue(t, k, g)
Fairness == /\ WF_vars(Silent) /\ \A k \in Task : WF_vars(Start(k)) /\ WF_vars(End(k)) /\ WF_vars(Retire(k))
            /\ \A t \in Thread : WF_vars(Return(t)) /\ WF_vars(SilentOf(t))
            /\ WF_vars(\E i \in 1..Len(queue) : Pick(i))
MCSpec == MCInit /\ [][MCNext]_vars /\ Fairness
Executed == \A k \in Task : (st[k] = "queued") ~> (st[k] = "retired")
WaitReturns == \A t \in Thread : In(t, "wait", "called") ~> ~In(t, "wait", "called")
Destroyed == \A t \in Thread : In(t, "dtor", "called") ~> gone
=============================================================================
