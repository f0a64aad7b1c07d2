SPECIFICATION Spec
CONSTANTS
  Shapes0 <- ShB
  Scores = {1, 4}
  Gaps = TRUE
  Prop = "C06"
INVARIANTS MissingStays C06Law
CHECK_DEADLOCK FALSE
