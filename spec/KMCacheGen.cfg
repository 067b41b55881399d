SPECIFICATION Spec
CONSTANTS
  Keep = TRUE
  Legacy = {}
  Generate = FALSE
  MaxAttach = 3
  WithFaults = TRUE
  WithAttrs = TRUE
  MaxHist = 99
VIEW view
ACTION_CONSTRAINT Emit

CHECK_DEADLOCK FALSE
