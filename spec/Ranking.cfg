SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Generate = FALSE
VIEW View
PROPERTIES Fresh
CHECK_DEADLOCK FALSE
