SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShB
  Scores = {1, 4}
  Gaps = TRUE
  Prop = "C04"
INVARIANTS MissingStays C04Law
CHECK_DEADLOCK FALSE
