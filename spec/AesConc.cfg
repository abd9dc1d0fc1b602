SPECIFICATION Spec
INVARIANT Linearizable
PROPERTIES ReadOnly Finish
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 2  Poly = 7  SubMul = 2  SubAdd = 1
  Rows = 2  Cols = 2  ExtraNr = 1
  MixC <- Mix2  InvMixC <- InvMix2
  Threads = {0, 1, 2}  Scratch = "own"
