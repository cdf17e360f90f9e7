INIT Init
NEXT Next
INVARIANT EscapesAreInverse
INVARIANT EscapedTextHasNoBreak
INVARIANT NothingIsLost
INVARIANT ComponentsAreInverse
INVARIANT CutsAreUnescaped
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
