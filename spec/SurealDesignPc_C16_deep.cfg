SPECIFICATION Spec
CONSTANTS
  N = 2
  S = 3
  Scores = {1, 2}
  Ties = {"even_split"}
  Coins = {"none"}
  Rates = {"none"}
  Types = {"within_subject"}
  Steps = 12
INVARIANTS ClimbLaw
CHECK_DEADLOCK FALSE
