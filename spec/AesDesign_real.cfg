\* the cipher itself on samples
SPECIFICATION Spec
PROPERTY Refines
INVARIANT Canonical
VIEW Objects
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 8  Poly = 283  SubMul = 31  SubAdd = 99
  Rows = 4  Cols = 4  ExtraNr = 6
  MixC <- AesMix  InvMixC <- AesInvMix
  Slots = {0}  Private = {0}  Regs = {}  Widths = {1, 2}
  Form = "fold"  Mutant = "none"
  Keys <- KeysReal  Xs <- TwoBlocks  Lists <- NoLists
  Ops = {"kn", "kc", "kx"}
