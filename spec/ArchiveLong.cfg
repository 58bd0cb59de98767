SPECIFICATION Spec
CONSTANTS MinMembers = 20
 MaxMembers = 40
 Kinds = {"good", "long"}
 Times = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25}
 Faults = {"none"}
 AnyOrder = FALSE
 Emitting = TRUE
INVARIANTS ErrorIff AllOrNothing EveryMember InOrder EmptyIsFine Emit
CHECK_DEADLOCK FALSE
