SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Depth = 5
  Kinds = {"dir", "file", "memo"}
  Grain = "steps"
INVARIANTS Right NoMix AtMostOnce
VIEW View
CHECK_DEADLOCK FALSE
