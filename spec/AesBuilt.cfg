SPECIFICATION TSpec
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
CONSTANT Mutant = "none"
