SPECIFICATION Spec
CONSTANTS
  Mode = "solo"
  MaxLevel = 5
  Generate = TRUE
  Leaky = FALSE
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
