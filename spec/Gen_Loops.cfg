SPECIFICATION Spec
CONSTANTS
  Length = 8
  Skips = FALSE
INVARIANT Printed
CHECK_DEADLOCK FALSE
