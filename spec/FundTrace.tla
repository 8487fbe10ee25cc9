--------------------------- MODULE FundTrace ----------------------------
EXTENDS Fund, Json, IOUtils
VARIABLES t, l, s, mode
TheTraces == ndJsonDeserialize(IOEnv.TRACE)
T == INSTANCE Trace WITH TInit <- Init, TApply <- Apply, TObs <- Obs, TInv <- Inv, Traces <- TheTraces
Spec == T!TSpec
View == T!TView
=============================================================================
