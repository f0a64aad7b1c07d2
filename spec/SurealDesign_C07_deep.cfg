SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShK
  Scores = {0, 5}
  Gaps = TRUE
  Prop = "C07"
INVARIANTS MissingStays ScreenLaw
CHECK_DEADLOCK FALSE
