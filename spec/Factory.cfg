CONSTANTS
    Threads = {t1, t2, t3}
    Facts = {f1, f2}
    MaxObj = 6
INIT Init
NEXT Next
INVARIANTS OnePerThread Disjoint Kept
CHECK_DEADLOCK FALSE
