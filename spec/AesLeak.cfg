SPECIFICATION Spec
INVARIANT NotBlind
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
