SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShA
  Scores = {1, 3, 4}
  Gaps = TRUE
  Prop = "C08"
INVARIANTS MissingStays ScreenLaw CorrLaw
CHECK_DEADLOCK FALSE
