SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShB
  Scores = {1, 4}
  Gaps = TRUE
  Prop = "C11"
INVARIANTS MissingStays C11Law
CHECK_DEADLOCK FALSE
