SPECIFICATION Spec
CONSTANTS
  Users = {1, 2, 3}
  Rounds = 2
  Delay = 2
  Variant = "countfirst"
INVARIANTS HeldInMemory NeverLost LoadsFindFile
CHECK_DEADLOCK FALSE
