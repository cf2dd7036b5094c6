SPECIFICATION Spec
CONSTANTS
 Words = {"ab", "err", "warn", "domerr", "boom"}
 Nums = {"1", "23"}
 Cases <- DCases
 MaxCases = 2
INVARIANTS Exact Opposed Restored All
PROPERTY Ends
CHECK_DEADLOCK FALSE
