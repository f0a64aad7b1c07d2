SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4}
  Depth = 14
  Kinds = {"dir", "file", "memo"}
  Grain = "calls"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
