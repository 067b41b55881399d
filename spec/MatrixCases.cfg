SPECIFICATION Spec
CONSTANTS
  Source = "enum"
  Ops = {"center", "normalize", "psd", "norm", "frob", "align", "alignc", "corr", "ideal", "normalize2"}
  Neg = 1
  Hi = 2
  N = 3
  Emitting = TRUE
INVARIANTS CenterLaws NormLaws FrobLaws AlignLaws AlignShift PSDLaws CompLaws ChooseLaws PairLaws IdealLaws Emit
CHECK_DEADLOCK FALSE
