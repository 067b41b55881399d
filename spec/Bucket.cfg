SPECIFICATION Spec
CONSTANTS
  MaxAdds = 2
  Emitting = FALSE
INVARIANTS LinearFirst NoBadMember LightInExhaustive Emit
PROPERTIES OnlyGrows FailureChangesNothing NormFixed
CHECK_DEADLOCK FALSE
