SPECIFICATION Spec
CONSTANTS
  Source = "enum"
  Ops = {"num", "input", "match", "callable"}
  Neg = 2
  Hi = 2
  MaxDim = 2
  Emitting = TRUE
INVARIANTS Symmetry Permutation Geometry Extremes MatchLaws InputLaws Emit
CHECK_DEADLOCK FALSE
