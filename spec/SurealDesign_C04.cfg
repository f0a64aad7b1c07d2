SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShA
  Scores = {1, 3, 4}
  Gaps = TRUE
  Prop = "C04"
INVARIANTS MissingStays C04Law
CHECK_DEADLOCK FALSE
