SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShA
  Scores = {1, 3, 4}
  Gaps = TRUE
  Prop = "C03"
INVARIANTS MissingStays C03Law
CHECK_DEADLOCK FALSE
