SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShB
  Scores = {1, 4}
  Gaps = TRUE
  Prop = "C01"
INVARIANTS MissingStays C01Law
CHECK_DEADLOCK FALSE
