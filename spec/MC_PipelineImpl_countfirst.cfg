SPECIFICATION Spec
CONSTANTS
  Tags = {"P01", "P02", "P03", "P04", "P06"}
  Scans = 4
  PerSubmap = 2
  Matchers = 2
  Variant = "countfirst"
INVARIANTS Allowed Complete RegisteredOnce PairsExist
CHECK_DEADLOCK FALSE
