SPECIFICATION Spec
CONSTANTS Widths = {1, 2, 3, 5, 260, 480}
 Alphabet <- QuickAlphabet
 MaxLen <- DeepLen
 Table <- LevelTable
 Emitting = TRUE
INVARIANTS Agree RowLength OnlyLevels Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
