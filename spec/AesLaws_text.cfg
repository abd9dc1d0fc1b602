\* every two bytes
SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 8  Poly = 283  SubMul = 31  SubAdd = 99
  Rows = 2  Cols = 1  ExtraNr = 2
  MixC <- Mix2  InvMixC <- Mix2
  Group = "text"  Xs <- BytePairs  Ys = {0}
