INIT Init
NEXT Next
INVARIANT DatesAreCanonical
INVARIANT OffsetsAreCanonical
INVARIANT TimesAreCanonical
INVARIANT DateTimesAreCanonical
INVARIANT StampsAreCanonical
INVARIANT AllAreCanonical
INVARIANT KindsAreDisjoint
INVARIANT StampsAreDateTimes
INVARIANT DigitsAreKept
INVARIANT Emit
CHECK_DEADLOCK FALSE
POSTCONDITION Emitted
