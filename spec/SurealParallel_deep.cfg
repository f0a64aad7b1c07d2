SPECIFICATION Spec
CONSTANTS
  MaxTasks = 6
  MaxLimit = 4
INVARIANTS WithinLimit OncePerArg InOrder
PROPERTIES Terminates
VIEW View
CHECK_DEADLOCK FALSE
