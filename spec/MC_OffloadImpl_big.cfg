SPECIFICATION Spec
CONSTANTS
  Users = {1, 2, 3}
  Rounds = 3
  Delay = 2
  Variant = "ok"
INVARIANTS HeldInMemory NeverLost LoadsFindFile
PROPERTIES AllServed Dropped
CHECK_DEADLOCK FALSE
