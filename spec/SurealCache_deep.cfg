SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Depth = 7
  Kinds = {"dir", "file", "memo"}
  Grain = "steps"
INVARIANTS Right NoMix AtMostOnce
VIEW View
CHECK_DEADLOCK FALSE
