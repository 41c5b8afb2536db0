SPECIFICATION Spec
CONSTANTS
  Tags = {"P01", "P02", "P03", "P04", "P06"}
  Scans = 6
  PerSubmap = 2
  Matchers = 2
  Variant = "ok"
INVARIANTS Allowed Complete RegisteredOnce PairsExist
PROPERTY Terminates
CHECK_DEADLOCK FALSE
