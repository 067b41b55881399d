SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
INVARIANTS Stable Emit
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
