SPECIFICATION Spec
CONSTANTS
  Given <- GivenAll
  Names = {}
  MaxCalls = 2
  Generate = FALSE
  Writers = {}
INVARIANTS TypeOK Untouched
PROPERTY Frame
CHECK_DEADLOCK FALSE
