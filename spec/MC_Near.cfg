INIT Init
NEXT Next
INVARIANT StrictIsStricter
INVARIANT DecodedIsValid
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
