------------------------------- MODULE MCReader ------------------------------
EXTENDS SmlReader, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
PLine == P.line
PMax == ToSet(P.max)
PQueue == P.queue
\* where the line is not of interest beyond what a call has left behind, drop it
=============================================================================
