------------------------------- MODULE MCGen ---------------------------------
(* SmlGen with the constants taken from the file that $PARAMS names. *)
EXTENDS SmlGen
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
PRoots == ToSet(P.roots)
PLeft == P.left
PMode == P.mode
PCount == P.count
PSeed == P.seed
PRate == P.rate
PWant == ToSet(P.want)
=============================================================================
