INIT Init
NEXT Next
INVARIANT CanonicalIsStable
INVARIANT CanonicalKeepsAll
INVARIANT CanonicalKeepsOrder
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
