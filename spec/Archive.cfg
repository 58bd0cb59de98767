SPECIFICATION Spec
CONSTANTS MinMembers = 0
 MaxMembers = 3
 Kinds = {"good", "long", "unit", "bad", "short"}
 Times = {1, 2, 3}
 Faults = {"none", "cut", "tarcut", "break"}
 AnyOrder = TRUE
 Emitting = FALSE
INVARIANTS ErrorIff AllOrNothing EveryMember InOrder EmptyIsFine CanEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
