SPECIFICATION SSpec
CONSTANT Inputs <- Names
CONSTANT FileOf <- TheFile
CONSTANTS Sessions = {1, 2, 3}
 Reads = 2
 Jobs = {"one", "run"}
 Emitting = TRUE
 Breaking = TRUE
INVARIANTS Own SameForSame NoWaiting Emit EmitFiles
PROPERTY Forever
CHECK_DEADLOCK FALSE
