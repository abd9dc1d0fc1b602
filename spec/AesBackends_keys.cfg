\* key expansions of sample keys
SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 8  Poly = 283  SubMul = 31  SubAdd = 99
  Rows = 4  Cols = 4  ExtraNr = 6
  MixC <- AesMix  InvMixC <- AesInvMix
  Group = "keys"  Items <- N40
