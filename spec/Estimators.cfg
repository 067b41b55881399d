SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Vals = 2
  Train = {1, 2}
  Weighted = {0, 1}
  Tests = {1, 2}
  MaxLevel = 100
  Tools = {}
  BadFits = {}
  LateFits = {}
  BadTests = {}
  Copies = FALSE
  Generate = FALSE
VIEW View
CONSTRAINT Bound
PROPERTIES OnlyLatestFit ParamsStable FitStable CloneUnfitted CopyFaithful ToolsAreSilent NeverUnfitted RejectedIsVoid OnlySuccessfulFits
CHECK_DEADLOCK FALSE
