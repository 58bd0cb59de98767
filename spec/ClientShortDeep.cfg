SPECIFICATION Spec
CONSTANTS Depth = 4
 Most = 6
 Kinds = {"parse", "scribble", "draw"}
 Files = {"rx", "rw", "rwFine", "qq", "w1", "fx", "fzPlus", "pg", "pgLv", "pgOne", "badRun"}
 AnyCut = FALSE
 Emitting = TRUE
INVARIANTS Functional Sound Held Emit
PROPERTY Isolated
CHECK_DEADLOCK FALSE
