CONSTANTS Reg = {1, 2, 3}
          Bytes = 2
          Value <- MCValue
          Text <- MCText
SPECIFICATION Spec
INVARIANTS RoundTrip TotalOrder Asymmetric Transitive IssuedValid
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
