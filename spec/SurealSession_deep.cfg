SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Models = {"MOS", "P910"}
INVARIANTS InputsUnchanged OneAnswer
PROPERTIES AnswersStick
CHECK_DEADLOCK FALSE
