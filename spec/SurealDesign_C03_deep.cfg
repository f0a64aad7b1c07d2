SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShB
  Scores = {1, 4}
  Gaps = TRUE
  Prop = "C03"
INVARIANTS MissingStays C03Law
CHECK_DEADLOCK FALSE
