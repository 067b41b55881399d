SPECIFICATION Spec
CONSTANTS
  KMs = {"k1", "k2", "k3"}
  Samples = {"A", "B"}
  MaxLevel = 30
  Generate = FALSE
CONSTRAINT Bound
VIEW View
INVARIANTS TypeOK Consistent Faithful
CHECK_DEADLOCK FALSE
