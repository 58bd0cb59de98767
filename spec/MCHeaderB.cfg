SPECIFICATION Spec
CONSTANTS Vocab = {"gp1", "gp2", "gp3", "bg1", "bg2", "vs1", "vs2", "int1", "int2", "vv1", "vv2", "e1", "e2", "lv", "pr", "sw", "mf", "ms", "q", "vvx", "in", "gpx", "bad1", "bad2", "end1", "end2", "end3"}
 MaxFields = 2
 Labels = {"RX", "RW", "W3", "QQ", "D2"}
 Emitting = TRUE
INVARIANTS ReadsAsMeant Emit
CHECK_DEADLOCK FALSE
