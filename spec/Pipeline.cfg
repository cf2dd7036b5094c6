CONSTANTS
    Stages = {"a", "b", "c", "d"}
    Kinds = {"ok", "err", "raise"}
SPECIFICATION Spec
INVARIANTS AtMostOnce OnlyNeeded Independent Complete
CHECK_DEADLOCK FALSE
