\* 2 x 2 two-bit cells: every block, every key of two columns, some longer ones
SPECIFICATION Spec
PROPERTY Refines
INVARIANT Canonical
VIEW Objects
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 2  Poly = 7  SubMul = 2  SubAdd = 1
  Rows = 2  Cols = 2  ExtraNr = 2
  MixC <- Mix2  InvMixC <- InvMix2
  Slots = {0}  Private = {0}  Regs = {}  Widths = {1}
  Form = "esm"  Mutant = "none"
  Keys <- KeysSquare  Xs <- AllBlocks  Lists <- NoLists
  Ops = {"kn", "kc", "kx"}
