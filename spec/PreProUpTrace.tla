--------------------------- MODULE PreProUpTrace ----------------------------
EXTENDS PreProUp, Json, IOUtils
VARIABLES t, l, s, mode
TheTraces == ndJsonDeserialize(IOEnv.TRACE)
T == INSTANCE Trace WITH TInit <- UpInit, TApply <- UpApply, TObs <- UpObs, TInv <- UpInv, Traces <- TheTraces
Spec == T!TSpec
View == T!TView
=============================================================================
