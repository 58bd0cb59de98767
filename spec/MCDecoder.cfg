SPECIFICATION MCSpec
CONSTANT Inputs <- Names
CONSTANT FileOf <- TheFile
INVARIANTS TypeOK NothingMissing ChunkIndependent FrameSuffices FrameNeeded Shape FirstRow UnknownUnit
PROPERTIES Terminates ShortIsError
CHECK_DEADLOCK FALSE
