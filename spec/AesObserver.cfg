SPECIFICATION Spec
INVARIANTS NonInterference Right
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 4  Poly = 19  SubMul = 7  SubAdd = 3
  Rows = 2  Cols = 1  ExtraNr = 1
  MixC <- Mix2  InvMixC <- InvMix2
  Design = "gates"
