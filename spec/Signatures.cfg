SPECIFICATION Spec
CONSTANTS
  Only = {}
INVARIANTS SameByPosition Defaults Distinct Emitted
CHECK_DEADLOCK FALSE
