INIT Init
NEXT Next
INVARIANT CaseIsIrrelevant
INVARIANT ReadingIsIdempotent
INVARIANT ListsAreItems
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
