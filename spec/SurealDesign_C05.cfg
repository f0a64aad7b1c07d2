SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShA
  Scores = {1, 3, 4}
  Gaps = TRUE
  Prop = "C05"
INVARIANTS MissingStays C05Law
CHECK_DEADLOCK FALSE
