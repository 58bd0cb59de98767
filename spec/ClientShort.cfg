SPECIFICATION Spec
CONSTANTS Depth = 3
 Most = 6
 Kinds = {"parse", "scribble", "draw"}
 Files = {"rx", "rxTime", "rw", "rwFine", "qq", "w1", "tall", "fx", "pg", "pgLv", "badRun"}
 AnyCut = FALSE
 Emitting = TRUE
INVARIANTS Functional Sound Held Emit
PROPERTY Isolated
CHECK_DEADLOCK FALSE
