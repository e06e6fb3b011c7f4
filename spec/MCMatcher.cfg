CONSTANTS NB = 3
          NA = 2
          Bits = 16
          Distances = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS OneToOne Limits Competition LosersFree Settled
PROPERTY Kept
CHECK_DEADLOCK FALSE
