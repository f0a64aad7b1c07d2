SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShK
  Scores = {0, 5}
  Gaps = FALSE
  Prop = "C07"
INVARIANTS MissingStays ScreenLaw
CHECK_DEADLOCK FALSE
