SPECIFICATION Spec
CONSTANTS
  Workers = {11, 12}
  Submitters = {1, 2}
  Tasks = {1, 2, 3, 4, 5, 6}
  Plan <- MCPlan
  Nested <- MCNested
  Needs <- MCNeeds
  WaitAll = FALSE
  Variant = "ok"
INVARIANTS OnceEach NoneLost InOrder AbsInv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
