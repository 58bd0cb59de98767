SPECIFICATION Spec
CONSTANTS Depth = 2
 Most = 6
 Kinds = {"parse", "archive", "look", "draw", "locate", "scribble", "review"}
 Files <- Names
 AnyCut = TRUE
 Emitting = FALSE
INVARIANTS Functional Sound Held
PROPERTY Isolated
CHECK_DEADLOCK FALSE
