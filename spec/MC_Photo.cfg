INIT Init
NEXT Next
INVARIANT DecodingIsInverse
INVARIANT OnlyOneText
INVARIANT PhotosAreIndependent
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
