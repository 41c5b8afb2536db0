SPECIFICATION Spec
CONSTANTS
  Length = 5
  Room = 230
  Cut = 200
INVARIANT Printed
CHECK_DEADLOCK FALSE
