SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Generate = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
