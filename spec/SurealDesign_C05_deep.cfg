SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShB
  Scores = {1, 4}
  Gaps = TRUE
  Prop = "C05"
INVARIANTS MissingStays C05Law
CHECK_DEADLOCK FALSE
