SPECIFICATION Spec
CONSTANTS Depth = 2
 Most = 6
 Kinds = {"parse", "together", "archive", "dummy", "flat", "look", "draw", "locate", "scribble", "review", "forget"}
 Files <- Names
 AnyCut = TRUE
 Emitting = FALSE
INVARIANTS Functional Sound Held
PROPERTY Isolated
CHECK_DEADLOCK FALSE
