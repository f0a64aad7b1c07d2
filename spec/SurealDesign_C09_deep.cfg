SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShB
  Scores = {1, 4}
  Gaps = TRUE
  Prop = "C09"
INVARIANTS MissingStays C09Law
CHECK_DEADLOCK FALSE
