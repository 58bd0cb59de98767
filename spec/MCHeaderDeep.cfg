SPECIFICATION Spec
CONSTANTS Vocab = {"gp1", "bg1", "vs1", "int1", "vv1", "e1", "lv", "sw", "ms", "vvx", "end2"}
 MaxFields = 5
 Labels = {"RX"}
 Emitting = TRUE
INVARIANTS ReadsAsMeant Emit
CHECK_DEADLOCK FALSE
