SPECIFICATION Spec
CONSTANTS Depth = 60
 Most = 6
 Kinds = {"parse", "together", "archive", "dummy", "flat", "look", "draw", "locate", "scribble", "review", "forget"}
 Files <- Names
 AnyCut = TRUE
 Emitting = TRUE
INVARIANTS Functional Sound Held Emit
PROPERTY Isolated
CHECK_DEADLOCK FALSE
