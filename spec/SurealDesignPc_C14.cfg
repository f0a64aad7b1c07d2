SPECIFICATION Spec
CONSTANTS
  N = 3
  S = 1
  Scores = {1, 2}
  Ties = {"", "even_split", "coin_toss"}
  Coins = {"none", "half"}
  Rates = {"none", "part", "zero", "more"}
  Types = {"", "within_subject"}
  Steps = 0
INVARIANTS MirrorLaw PrefLaw AcceptLaw
CHECK_DEADLOCK FALSE
