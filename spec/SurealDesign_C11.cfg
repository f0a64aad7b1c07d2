SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShA
  Scores = {1, 3, 4}
  Gaps = TRUE
  Prop = "C11"
INVARIANTS MissingStays C11Law
CHECK_DEADLOCK FALSE
