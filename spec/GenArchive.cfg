SPECIFICATION Spec
CONSTANTS MinMembers = 0
 MaxMembers = 4
 Kinds = {"good"}
 Times = {1, 2, 3, 4}
 Faults = {"none"}
 AnyOrder = TRUE
 Emitting = TRUE
INVARIANTS ErrorIff AllOrNothing EveryMember InOrder EmptyIsFine Emit
CHECK_DEADLOCK FALSE
