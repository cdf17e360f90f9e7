INIT Init
NEXT Next
INVARIANT StrictAccepts
INVARIANT LooseIsStrictOfTheRest
INVARIANT LooseExtendsStrict
INVARIANT LooseNeedsTheFrame
INVARIANT CardsAreValid
INVARIANT Iteration
INVARIANT Composition
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANT Property <- Cached
POSTCONDITION Emitted
