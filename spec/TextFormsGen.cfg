SPECIFICATION Spec
CONSTANTS
  KMs = {"k1", "k2", "k3"}
  Samples = {"A", "B", "C"}
  MaxLevel = 4
  Generate = TRUE
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
