\* the substitution circuit, every byte next to many others
SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 8  Poly = 283  SubMul = 31  SubAdd = 99
  Rows = 4  Cols = 4  ExtraNr = 6
  MixC <- AesMix  InvMixC <- AesInvMix
  Group = "circuit"  Items <- NFew
