----------------------------- MODULE MCMatcher ------------------------------
EXTENDS Matcher, TLC
CONSTANTS NB, NA, Bits, Distances
Start(x) == in = x /\ match = <<>> /\ losers = {} /\ round = 0
\* Every pair is near, far or out of reach.
Init == \E d \in [1..NB -> [1..NA -> Distances]], w \in [1..NB -> [1..NA -> {0, 1, 2}]] :
          Start([bits |-> Bits, d |-> d, ok |-> 1..NB, near |-> [b \in 1..NB |-> {a \in 1..NA : w[b][a] = 1}], far |-> [b \in 1..NB |-> {a \in 1..NA : w[b][a] = 2}]])
Spec == Init /\ [][Turn]_<<in, match, losers, round>>
=============================================================================
