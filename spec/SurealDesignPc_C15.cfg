SPECIFICATION Spec
CONSTANTS
  N = 3
  S = 2
  Scores = {1, 2}
  Ties = {"even_split"}
  Coins = {"none"}
  Rates = {"none"}
  Types = {"within_subject"}
  Steps = 0
INVARIANTS TensorLaw
CHECK_DEADLOCK FALSE
