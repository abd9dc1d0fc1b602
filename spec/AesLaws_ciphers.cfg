\* every block and key of one column of two four-bit cells
SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 4  Poly = 19  SubMul = 7  SubAdd = 3
  Rows = 2  Cols = 1  ExtraNr = 2
  MixC <- Mix2  InvMixC <- InvMix2
  Group = "ciphers"  Xs <- AllBlocks  Ys <- AllBlocks
