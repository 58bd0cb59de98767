SPECIFICATION Spec
CONSTANTS MinMembers = 0
 MaxMembers = 3
 Kinds = {"good", "long", "folder", "link", "device", "empty"}
 Times = {2}
 Faults = {"none"}
 AnyOrder = TRUE
 Emitting = TRUE
INVARIANTS ErrorIff AllOrNothing EveryMember InOrder EmptyIsFine Emit
CHECK_DEADLOCK FALSE
