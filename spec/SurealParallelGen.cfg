INIT Init
NEXT Next
CONSTANTS
  MaxTasks = 13
  MaxLimit = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE
