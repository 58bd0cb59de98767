SPECIFICATION Spec
CONSTANT MaxX = 3
CONSTANT MaxY = 3
CONSTANT MaxZ = 2
INVARIANT TypeOK
INVARIANT Faithful
INVARIANT Untouched
PROPERTY Ends
