SPECIFICATION Spec
CONSTANTS
  KMs = {"u1", "a", "b"}
  MaxLen = 2
  MaxLevel = 3
  Generate = TRUE
  WithAttrs = TRUE
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
