SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Models = {"MOS", "DMOS", "P910"}
INVARIANTS InputsUnchanged OneAnswer
PROPERTIES AnswersStick
CHECK_DEADLOCK FALSE
