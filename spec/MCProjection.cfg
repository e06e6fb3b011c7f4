SPECIFICATION Spec
CONSTANTS
  Far = 3
INVARIANTS Seen Good Scale Same Sides Mirror Back OneWay Around
CHECK_DEADLOCK FALSE
