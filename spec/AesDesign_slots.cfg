\* every history of three objects with keys of two sizes
SPECIFICATION Spec
PROPERTY Refines
INVARIANT Canonical
VIEW Objects
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 4  Poly = 19  SubMul = 7  SubAdd = 3
  Rows = 2  Cols = 1  ExtraNr = 2
  MixC <- Mix2  InvMixC <- InvMix2
  Slots = {0, 1, 2}  Private = {0, 1, 2}  Regs = {}  Widths = {1, 2}
  Form = "fold"  Mutant = "none"
  Keys <- KeysMixed  Xs <- TwoBlocks  Lists <- NoLists
  Ops = {"kn", "kc", "kl", "kd", "kx"}
