SPECIFICATION Spec
CONSTANT Jobs <- MCJobs
CONSTANT FileNamed <- MCFile
INVARIANT Faithful
INVARIANT Visible
INVARIANT Untouched
INVARIANT OnlyUsage Told
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
