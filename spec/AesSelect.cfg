SPECIFICATION Spec
INVARIANTS IsConfig AskedIsHad VectorNeedsBase WideNeedsBase BigIsSoft
PROPERTIES NeverLess CtIsIdle
CHECK_DEADLOCK FALSE
CONSTANT Mutant = "none"
