SPECIFICATION Spec
VIEW View
INVARIANT Invs EmitC
CHECK_DEADLOCK FALSE
