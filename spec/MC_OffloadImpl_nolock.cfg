SPECIFICATION Spec
CONSTANTS
  Users = {1, 2, 3}
  Rounds = 2
  Delay = 2
  Variant = "nolock"
INVARIANTS HeldInMemory NeverLost LoadsFindFile
CHECK_DEADLOCK FALSE
