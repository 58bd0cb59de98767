SPECIFICATION Spec
CONSTANTS Vocab = {"long", "huge", "gp1", "vv1", "lv"}
 MaxFields = 2
 Labels = {"RX"}
 Emitting = TRUE
INVARIANTS ReadsAsMeant Emit
CHECK_DEADLOCK FALSE
