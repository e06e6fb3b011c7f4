--------------------------- MODULE PipelineTrace ---------------------------
(* Recorded executions of the real pipeline must be behaviours of Pipeline. *)
EXTENDS Pipeline, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init(Traces[tid].cams, Traces[tid].tol)
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid

TCall == /\ Step("c")
         /\ IF E.o \in {"put", "putb", "putd"} THEN CallSubmit(E.t, E.o, E.k, E.cam, E.ts, E.max) ELSE Call(E.t, E.o)
\* What is seen of a fetched set.
Seen(set) == [c \in DOMAIN set.s |-> <<set.s[c], img[set.s[c]].ts, 1>>]
TReturn == /\ Step("r") /\ In(E.t, E.o, "done")
           /\ TRUE = (E.o \in {"putb", "putd", "next", "nextb", "latest", "latestb"} => call[E.t][5] = E.ok)
           /\ TRUE = (E.o \in {"next", "nextb", "latest", "latestb"} => E.res = Seen(call[E.t][6]))
           /\ TRUE = (E.o \in {"done", "open"} => E.v = call[E.t][4])
           /\ Return(E.t)
TBegin == Step("s") /\ E.cam = img[E.k].cam /\ E.ts = img[E.k].ts /\ Begin(E.k)
TPark  == Step("p") /\ UNCHANGED vars /\ TRUE = (Strict => MayBlock(E.t) \/ Op(E.t) = "dtor")
TQuiet == Step("q") /\ UNCHANGED vars /\ TRUE = (Strict => Stuck)
TStall == ~Strict /\ (Step("livelock") \/ Step("hang")) /\ UNCHANGED vars
TSilent == l <= Len(Ev) /\ Silent /\ UNCHANGED <<tid, l>>
TraceNext == TCall \/ TReturn \/ TBegin \/ TPark \/ TQuiet \/ TStall \/ TSilent
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
