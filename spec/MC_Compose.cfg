INIT Init
NEXT Next
INVARIANT AcceptedCompose
INVARIANT RejectedSpoils
INVARIANT IterationEnds
INVARIANT NoCardIsLost
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
