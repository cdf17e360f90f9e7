INIT Init
NEXT Next
INVARIANT FolderIsRight
INVARIANT FoldingIsUndone
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
