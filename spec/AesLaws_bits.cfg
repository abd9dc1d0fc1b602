\* all pairs of two-cell blocks of four bits
SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 4  Poly = 19  SubMul = 7  SubAdd = 3
  Rows = 2  Cols = 1  ExtraNr = 2
  MixC <- Mix2  InvMixC <- InvMix2
  Group = "bits"  Xs <- AllBlocks  Ys <- AllBlocks
