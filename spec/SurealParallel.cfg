SPECIFICATION Spec
CONSTANTS
  MaxTasks = 4
  MaxLimit = 3
INVARIANTS WithinLimit OncePerArg InOrder
PROPERTIES Terminates
VIEW View
CHECK_DEADLOCK FALSE
