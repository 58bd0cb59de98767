SPECIFICATION Spec
CONSTANTS Widths = {1, 3, 260}
 Alphabet <- QuickAlphabet
 MaxLen <- QuickLen
 Table <- LevelTable
 Emitting = TRUE
INVARIANTS Agree RowLength OnlyLevels Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
