SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShA
  Scores = {1, 3, 4}
  Gaps = TRUE
  Prop = "C09"
INVARIANTS MissingStays C09Law
CHECK_DEADLOCK FALSE
