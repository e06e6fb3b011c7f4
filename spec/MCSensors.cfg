CONSTANTS
  Texts = {"a", "b"}
  MaxDim = 3
SPECIFICATION Spec
INVARIANTS RoundTrip NeverInvalid KeepsWhatIsMissing
CHECK_DEADLOCK FALSE
