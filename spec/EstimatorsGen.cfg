SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Vals = 2
  Train = {1, 2}
  Weighted = {0, 1}
  Tests = {1, 2}
  MaxLevel = 4
  Tools = {}
  BadFits = {}
  LateFits = {}
  BadTests = {}
  Copies = FALSE
  Generate = TRUE
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
