SPECIFICATION Spec
CONSTANTS
  KMs = {"u1", "a", "b"}
  MaxLen = 2
  MaxLevel = 100
  Generate = FALSE
  WithAttrs = FALSE
CONSTRAINT Bound
VIEW View
INVARIANTS Uniform
PROPERTIES AddedCompatible RefusalIsSilent Frame AttachReaches
CHECK_DEADLOCK FALSE
