SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxList = 3
INVARIANTS InRange OkNonEmpty IntLaw ListLaw SliceLaw MirrorLaw SortLaw Emit
CHECK_DEADLOCK FALSE
