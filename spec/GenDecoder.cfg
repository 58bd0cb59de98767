SPECIFICATION GSpec
CONSTANT Inputs <- Names
CONSTANT FileOf <- TheFile
INVARIANT Emit
CHECK_DEADLOCK FALSE
