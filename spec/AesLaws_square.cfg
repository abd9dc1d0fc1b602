\* every block and key of 2 x 2 two-bit cells
SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 2  Poly = 7  SubMul = 2  SubAdd = 1
  Rows = 2  Cols = 2  ExtraNr = 2
  MixC <- Mix2  InvMixC <- InvMix2
  Group = "rounds"  Xs <- AllBlocks  Ys <- AllBlocks
