CONSTANTS
    Stages = {"a", "b", "c", "d"}
    Kinds = {"ok", "err", "fatal", "none", "raise", "data"}
SPECIFICATION Spec
INVARIANTS AtMostOnce OnlyNeeded Independent Complete
CHECK_DEADLOCK FALSE
