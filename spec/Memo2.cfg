SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Addrs = {1, 2, 3}
  MaxCalls = 4
  ClearAtStart = TRUE
INVARIANTS SameAsAlone OneGraphEach
CHECK_DEADLOCK FALSE
