\* the same as on ARMv8
SPECIFICATION Spec
PROPERTY Refines
INVARIANT Canonical
VIEW Objects
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 3  Poly = 11  SubMul = 2  SubAdd = 5
  Rows = 2  Cols = 2  ExtraNr = 2
  MixC <- Mix2  InvMixC <- InvMix2
  Slots = {0}  Private = {0}  Regs = {}  Widths = {1, 2, 4}
  Form = "pre"  Mutant = "none"
  Keys <- KeysWide  Xs <- FewBlocks  Lists <- ShortLists
  Ops = {"kn", "kc", "kx", "rnd", "mix", "chain"}
