SPECIFICATION Spec
CONSTANTS
  Source = "enum"
  Ops = {"vector", "matrix", "pair", "scale", "finite", "sym", "callable", "iter"}
  MaxAxis = 3
  Emitting = TRUE
INVARIANTS Size Trailing Mirror ScaleLaws IterLaws Emit
CHECK_DEADLOCK FALSE
