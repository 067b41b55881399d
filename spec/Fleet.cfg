SPECIFICATION Spec
CONSTANTS
  Mode = "solo"
  MaxLevel = 6
  Generate = FALSE
  Leaky = FALSE
VIEW View
CONSTRAINT Bound
PROPERTIES Independent Faithful NewIsFresh
CHECK_DEADLOCK FALSE
