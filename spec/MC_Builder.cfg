INIT Init
NEXT Next
INVARIANT CallsCommute
INVARIANT OneOfEach
INVARIANT OnlyNamedFields
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
