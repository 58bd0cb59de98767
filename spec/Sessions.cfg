SPECIFICATION SSpec
CONSTANT Inputs <- Names
CONSTANT FileOf <- TheFile
CONSTANTS Sessions = {1, 2}
 Reads = 4
 Jobs = {"one", "two", "run", "unk", "badOf", "short"}
 Emitting = TRUE
 Breaking = FALSE
INVARIANTS Own SameForSame NoWaiting Emit EmitFiles
PROPERTY Forever
CHECK_DEADLOCK FALSE
