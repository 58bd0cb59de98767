SPECIFICATION SSpec
CONSTANT Inputs <- Names
CONSTANT FileOf <- TheFile
CONSTANTS Sessions = {1, 2, 3}
 Reads = 3
 Jobs = {"two", "run", "badRn"}
 Emitting = TRUE
 Breaking = TRUE
INVARIANTS Own SameForSame NoWaiting Emit EmitFiles
PROPERTY Forever
CHECK_DEADLOCK FALSE
