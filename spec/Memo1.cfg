SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Addrs = {1, 2}
  MaxCalls = 4
  ClearAtStart = TRUE
INVARIANTS SameAsAlone OneGraphEach
CHECK_DEADLOCK FALSE
