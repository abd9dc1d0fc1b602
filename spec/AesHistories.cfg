SPECIFICATION Spec
INVARIANT Type
PROPERTY Faithful
CHECK_DEADLOCK FALSE
CONSTANTS Slots = {0, 1}  Names = {"a", "b"}
