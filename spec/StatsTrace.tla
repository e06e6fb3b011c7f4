---------------------------- MODULE StatsTrace ------------------------------
(* Recorded use of the real timers and statistics, by one thread or        *)
(* several, must be a behaviour of Stats.                                  *)
EXTENDS Stats, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l,
          gen,   \* number of resets of each registry; <<tag, gen>> stands for the handle in concurrent executions
          num    \* function from these to the numbers seen
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init /\ gen = [r \in Reg |-> 0] /\ num = <<>>
Step(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tid
AsSet(s) == {s[i] : i \in DOMAIN s}
Quiet == UNCHANGED <<tags, data, timer, call>>

\* Figures reported for a handle (nothing else is said of one without samples).  f.mean and f.win are in
\* hundredths, f.var in tenths; f.dt* likewise, of the times between samples.
Figures(f, d) ==
  /\ f.n = Len(d.s)
  /\ f.sum = SumOf(d.s)
  /\ IsMean(f.mean, d.s, 100)
  /\ d.s # <<>> => f.min = MinOf(d.s) /\ f.max = MaxOf(d.s)
  /\ IsVar(f.var, LastOf(d.s, Window), 10)
  /\ "last" \in DOMAIN f => f.last = (IF d.s = <<>> THEN 0 ELSE d.s[Len(d.s)])
  /\ ("win" \in DOMAIN f /\ d.s # <<>>) => IsMean(f.win, LastOf(d.s, Window), 100)
  /\ "dtmean" \in DOMAIN f =>
       LET t == Deltas(d.t) IN
         /\ IsMean(f.dtmean, t, 100)
         /\ t # <<>> => f.dtmin = MinOf(t) /\ f.dtmax = MaxOf(t)
         /\ f.dtlast = (IF t = <<>> THEN 0 ELSE t[Len(t)])
         /\ IsVar(f.dtvar, LastOf(t, Window), 10)
         /\ IsMean(f.period, t, 100)
\* A listing: one entry per tag that was looked up, with its figures (n, min, max).
Entry(x, r) == x.g \in DOMAIN tags[r] /\ LET s == data[r][tags[r][x.g]].s IN
                 x.n = Len(s) /\ (s # <<>> /\ "min" \in DOMAIN x => x.min = MinOf(s) /\ x.max = MaxOf(s))
Tags(res) == {res[i].g : i \in DOMAIN res}
WithSamples(r) == {g \in DOMAIN tags[r] : data[r][tags[r][g]].s # <<>>}

Sequential ==
  /\ UNCHANGED <<call, gen, num>>
  /\ \/ Step("handle") /\ Handle(E.r, E.g, E.h) /\ UNCHANGED timer
     \/ Step("has") /\ E.res = Has(E.r, E.g) /\ Quiet
     \/ Step("tag") /\ E.res = TagOf(E.r, E.h) /\ Quiet
     \/ Step("add") /\ Sample(1, E.h, E.x, E.now) /\ UNCHANGED timer
     \/ Step("make") /\ Handle(0, E.g, E.h) /\ Make(E.i, E.h, E.on, E.now)
     \/ Step("start") /\ Start(E.i, E.now) /\ UNCHANGED <<tags, data>>
     \/ Step("stop") /\ E.res = (IF timer[E.i].on THEN E.now - timer[E.i].since ELSE 0) /\ Stop(E.i, E.now)
     \/ Step("discard") /\ Discard(E.i) /\ UNCHANGED <<tags, data>>
     \/ Step("timing") /\ E.res = timer[E.i].on /\ E.h = timer[E.i].h /\ Quiet
     \/ Step("destroy") /\ Destroy(E.i, E.now)
     \/ Step("reset") /\ Reset(E.r) /\ UNCHANGED timer
     \/ Step("figures") /\ E.h \in DOMAIN data[E.r] /\ TRUE = Figures(E.f, data[E.r][E.h]) /\ Quiet
     \/ Step("print") /\ Tags(E.res) = DOMAIN tags[E.r] /\ Len(E.res) = Cardinality(DOMAIN tags[E.r])
        /\ TRUE = (\A i \in DOMAIN E.res : Entry(E.res[i], E.r)) /\ Quiet
     \/ Step("yaml") /\ Tags(E.res) = WithSamples(E.r) /\ Len(E.res) = Cardinality(WithSamples(E.r))
        /\ TRUE = (\A i \in DOMAIN E.res : Entry(E.res[i], E.r)) /\ Quiet
     \* a stand-alone accumulator with window E.w (0: unbounded) that was given the samples E.s
     \/ /\ Step("acc")
        /\ LET w == IF E.w = 0 THEN Len(E.s) ELSE E.w IN TRUE = (
             /\ E.f.n = Len(E.s) /\ E.f.sum = SumOf(E.s) /\ IsMean(E.f.mean, E.s, 100)
             /\ E.s # <<>> => E.f.min = MinOf(E.s) /\ E.f.max = MaxOf(E.s) /\ E.f.last = E.s[Len(E.s)]
                              /\ IsMean(E.f.win, LastOf(E.s, w), 100)
             /\ IsVar(E.f.var, LastOf(E.s, w), 10)
             /\ LET k == LastOf(E.s, w) IN
                  /\ Len(E.kept) = Len(k)
                  /\ \A x \in AsSet(k) \cup AsSet(E.kept) :
                       Cardinality({i \in DOMAIN k : k[i] = x}) = Cardinality({i \in DOMAIN k : E.kept[i] = x}))
        /\ Quiet

\* Threads: an operation is called, takes one or two atomic steps (look the tag up; use the handle), and returns.
\* Listings take place tag by tag after the tags were looked up.
Started(t) == t \in DOMAIN call
Goes(t, stage) == call' = [call EXCEPT ![t].stage = stage]
Counts == [r \in Reg |-> [h \in DOMAIN data[r] |-> Len(data[r][h].s)]]
Do(t) ==
  /\ Started(t) /\ UNCHANGED <<timer, num>>
  /\ LET c == call[t] o == c.o IN
     \/ /\ c.stage = "called" /\ o.o \in {"add", "num", "total", "handle", "time"} /\ UNCHANGED gen
        /\ LET h == <<o.r, o.g, gen[o.r]>> IN
             /\ Handle(o.r, o.g, h)
             /\ call' = [call EXCEPT ![t].h = h, ![t].stage = IF o.o = "handle" THEN "done" ELSE "handle"]
     \/ /\ c.stage = "handle" /\ o.o \in {"add", "time"} /\ Sample(o.r, c.h, o.x, 0) /\ Goes(t, "done") /\ UNCHANGED gen
     \/ /\ c.stage = "handle" /\ o.o = "num" /\ UNCHANGED <<tags, data, gen>>
        /\ call' = [call EXCEPT ![t].stage = "done", ![t].res = Len(data[o.r][c.h].s)]
     \/ /\ c.stage = "handle" /\ o.o = "total" /\ UNCHANGED <<tags, data, gen>>
        /\ call' = [call EXCEPT ![t].stage = "done", ![t].res = SumOf(data[o.r][c.h].s)]
     \/ /\ c.stage = "called" /\ o.o = "reset" /\ Reset(o.r) /\ Goes(t, "done") /\ gen' = [gen EXCEPT ![o.r] = @ + 1]
     \/ /\ c.stage = "called" /\ o.o \in {"print", "yaml"} /\ UNCHANGED <<tags, data, gen>>
        /\ call' = [call EXCEPT ![t].stage = "done", ![t].res = tags[o.r]]
Concurrent ==
  \/ Step("c") /\ UNCHANGED <<tags, data, timer, gen, num>>
     /\ call' = Put(call, E.t, [o |-> E, stage |-> "called", h |-> <<>>, res |-> <<>>, cnt |-> IF E.o \in {"print", "yaml"} THEN Counts ELSE <<>>])
  \/ /\ Step("r") /\ Started(E.t) /\ UNCHANGED <<tags, data, timer, gen>> /\ call' = Drop(call, E.t)
     /\ LET c == call[E.t] o == c.o IN
          /\ c.stage = "done"
          /\ IF o.o # "handle" THEN UNCHANGED num
             ELSE IF c.h \in DOMAIN num THEN E.res = num[c.h] /\ UNCHANGED num
             ELSE /\ \A k \in DOMAIN num : k[1] = o.r /\ k[2] # o.g => num[k] # E.res
                  /\ num' = Put(num, c.h, E.res)
          /\ TRUE = CASE o.o \in {"num", "total"} -> E.res = c.res
               [] o.o \in {"print", "yaml"} ->
                    /\ Tags(E.res) \subseteq DOMAIN c.res
                    /\ \A i, j \in DOMAIN E.res : E.res[i].g = E.res[j].g => i = j
                    /\ \A g \in DOMAIN c.res : LET h == c.res[g] cnt == c.cnt[o.r] old == (IF h \in DOMAIN cnt THEN cnt[h] ELSE 0) IN
                         /\ (o.o = "print" \/ old > 0) => g \in Tags(E.res)
                         /\ \A i \in DOMAIN E.res : E.res[i].g = g => E.res[i].n >= old /\ E.res[i].n <= Len(data[o.r][h].s)
               [] OTHER -> TRUE
  \/ l <= Len(Ev) /\ (\E t \in DOMAIN call : Do(t)) /\ UNCHANGED <<tid, l>>

TraceSpec == TraceInit /\ [][Sequential \/ Concurrent]_<<vars, tid, l, gen, num>>
Accepted == l = Len(Ev) + 1 => PrintT(<<"ACC", tid>>)
Reached  == PrintT(<<"AT", tid, l>>)
=============================================================================
