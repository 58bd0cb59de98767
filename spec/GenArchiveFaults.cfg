SPECIFICATION Spec
CONSTANTS MinMembers = 0
 MaxMembers = 3
 Kinds = {"good", "long", "unit", "bad", "short"}
 Times = {2}
 Faults = {"none", "cut", "tarcut", "break"}
 AnyOrder = TRUE
 Emitting = TRUE
INVARIANTS ErrorIff AllOrNothing EveryMember InOrder EmptyIsFine Emit
CHECK_DEADLOCK FALSE
