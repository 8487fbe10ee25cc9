--------------------------- MODULE StakeUpTrace ----------------------------
EXTENDS StakeUp, Json, IOUtils
VARIABLES t, l, s, mode
TheTraces == ndJsonDeserialize(IOEnv.TRACE)
T == INSTANCE Trace WITH TInit <- U!UpInit, TApply <- U!UpApply, TObs <- U!UpObs, TInv <- U!UpInv, Traces <- TheTraces
Spec == T!TSpec
View == T!TView
=============================================================================
