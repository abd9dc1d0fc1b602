\* the same, rounds composed as on ARMv8
SPECIFICATION Spec
PROPERTY Refines
INVARIANT Canonical
VIEW Objects
CHECK_DEADLOCK FALSE
CONSTANTS
  E = 4  Poly = 19  SubMul = 7  SubAdd = 3
  Rows = 2  Cols = 1  ExtraNr = 2
  MixC <- Mix2  InvMixC <- InvMix2
  Slots = {0}  Private = {0}  Regs = {}  Widths = {1}
  Form = "pre"  Mutant = "none"
  Keys <- Keys1  Xs <- AllBlocks  Lists <- NoLists
  Ops = {"kn", "kc", "kx"}
