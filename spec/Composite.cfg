SPECIFICATION Spec
CONSTANTS
  Size = 2
  Generate = FALSE
VIEW View
INVARIANTS NeedsTwo
PROPERTIES ReadFresh NeverUnfitted
CHECK_DEADLOCK FALSE
