SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShA
  Scores = {1, 3, 4}
  Gaps = TRUE
  Prop = "C06"
INVARIANTS MissingStays C06Law
CHECK_DEADLOCK FALSE
