SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShA
  Scores = {1, 3, 4}
  Gaps = TRUE
  Prop = "C01"
INVARIANTS MissingStays C01Law
CHECK_DEADLOCK FALSE
