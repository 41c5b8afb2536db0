SPECIFICATION Spec
CONSTANTS
  Length = 6
  Room = 230
  Cut = 200
INVARIANT Printed
CHECK_DEADLOCK FALSE
