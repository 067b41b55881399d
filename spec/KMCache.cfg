SPECIFICATION Spec
CONSTANTS
  Keep = TRUE
  Legacy = {}
  Generate = FALSE
  MaxAttach = 3
  WithFaults = TRUE
  WithAttrs = TRUE
  MaxHist = 99
VIEW view
INVARIANTS Attachment MemoSound Frugal PopComplete
PROPERTIES Correct LazyOnce ErrorsJustified RefusalIsSilent
CHECK_DEADLOCK FALSE
