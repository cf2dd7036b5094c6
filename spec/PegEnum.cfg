CONSTANT MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Laws Emit
