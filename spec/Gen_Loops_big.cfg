SPECIFICATION Spec
CONSTANTS
  Length = 6
  Skips = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
