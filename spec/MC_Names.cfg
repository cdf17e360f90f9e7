INIT Init
NEXT Next
INVARIANT CaseIsIrrelevant
INVARIANT PrivateNamesAreKept
INVARIANT SlotIsItsName
INVARIANT GroupsAreKept
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
