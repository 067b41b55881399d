SPECIFICATION Spec
CONSTANTS
  Given <- GivenAll
  Names = {}
  MaxCalls = 1
  Generate = TRUE
  Writers = {}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
