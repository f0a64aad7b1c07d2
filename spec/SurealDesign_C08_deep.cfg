SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShB
  Scores = {1, 4}
  Gaps = TRUE
  Prop = "C08"
INVARIANTS MissingStays ScreenLaw CorrLaw
CHECK_DEADLOCK FALSE
