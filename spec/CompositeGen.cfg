SPECIFICATION Spec
CONSTANTS
  Size = 2
  Generate = TRUE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
