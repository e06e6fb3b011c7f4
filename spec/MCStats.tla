------------------------------ MODULE MCStats -------------------------------
(* Two threads using timers and statistics in small; ghost histories.      *)
EXTENDS Stats
CONSTANTS Tag, Thr, MaxSamples, R   \* R: registries used
VARIABLE log    \* all samples recorded: <<registry, tag at that time or "", value>>
MCInit == Init /\ log = <<>>
Seen(r, h, x) == log' = Append(log, <<r, TagOf(r, h), x, h>>)
Fresh(r) == Cardinality(DOMAIN data[r])
Next ==
  \/ \E r \in R, g \in Tag : \E h \in {Fresh(r)} \cup Handles(r) : Handle(r, g, h) /\ UNCHANGED <<timer, call, log>>
  \/ \E h \in DOMAIN data[1], x \in 1..2 : Sample(1, h, x, 0) /\ Seen(1, h, x) /\ UNCHANGED <<timer, call>>
  \/ \E i \in Thr, h \in DOMAIN data[0], b \in BOOLEAN : i \notin DOMAIN timer /\ Make(i, h, b, 0) /\ UNCHANGED <<tags, data, call, log>>
  \/ \E i \in DOMAIN timer : Start(i, 0) /\ UNCHANGED <<tags, data, call, log>>
  \/ \E i \in DOMAIN timer : Stop(i, 1) /\ (IF timer[i].on THEN Seen(0, timer[i].h, 1) ELSE UNCHANGED log) /\ UNCHANGED call
  \/ \E i \in DOMAIN timer : Destroy(i, 1) /\ (IF timer[i].on THEN Seen(0, timer[i].h, 1) ELSE UNCHANGED log) /\ UNCHANGED call
  \/ \E i \in DOMAIN timer : Discard(i) /\ UNCHANGED <<tags, data, call, log>>
  \/ \E r \in R : Reset(r) /\ log' = SelectSeq(log, LAMBDA e : e[1] # r) /\ UNCHANGED <<timer, call>>
Spec == MCInit /\ [][Next]_<<vars, log>>
\* Tags and handles are in one-to-one correspondence, and looking one up gives its partner.
Bijective == \A r \in Reg : \A g, k \in DOMAIN tags[r] : tags[r][g] = tags[r][k] => g = k
Partner == \A r \in Reg : \A g \in DOMAIN tags[r] : TagOf(r, tags[r][g]) = g
\* A tag's samples are exactly those recorded for it since the last reset.
Attributed == \A r \in Reg : \A g \in DOMAIN tags[r] :
  LET own == SelectSeq(log, LAMBDA e : e[1] = r /\ e[2] = g) IN data[r][tags[r][g]].s = [i \in DOMAIN own |-> own[i][3]]
Bound == \A r \in Reg : /\ Cardinality(DOMAIN data[r]) <= 3
                      /\ SumOf([h \in 1..Cardinality(DOMAIN data[r]) |-> Len(data[r][h - 1].s)]) <= MaxSamples
=============================================================================
