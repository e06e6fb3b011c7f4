---------------------------- MODULE MCPipeline ----------------------------
EXTENDS Pipeline
CONSTANTS N, Tol, Times, Calls,
  Sequential   \* one image after the other
Limited == {o \in Calls : o \notin {"put", "putb", "putd", "shut", "dtor"}}
MCInit == Init(N, Tol)
Fresh(k) == Is(k, "new") /\ \A j \in Image : j < k => ~Is(j, "new")
MCNext ==
  \/ Silent \/ (\E k \in Image : Begin(k)) \/ \E t \in Thread : Return(t)
  \/ \E t \in Thread :
       \/ (Sequential => Working = {}) /\ \E o \in Calls \cap {"put", "putb", "putd"}, k \in Image, c \in Cams, ts \in Times : Fresh(k) /\ CallSubmit(t, o, k, c, ts, 1)
       \/ \E o \in Limited : Call(t, o)
       \/ "shut" \in Calls /\ closed = 0 /\ Call(t, "shut")
Fairness == /\ \A t \in Thread : WF_vars(SilentOf(t)) /\ WF_vars(Return(t))
            /\ \A k \in Image : WF_vars(Begin(k)) /\ WF_vars(Insert(k))
MCSpec == MCInit /\ [][MCNext]_vars /\ Fairness
\* C07: a call that does not block is answered; shutdown releases the others.
Answered == \A t \in Thread : In(t, "next", "called") ~> call[t][2] # "called"
Released == \A t \in Thread : (call[t][2] = "called" /\ closed # 0) ~> call[t][2] # "called"
Processed == \A k \in Image : Is(k, "queued") ~> img[k].st \in {"held", "delivered", "dropped"}
=============================================================================
