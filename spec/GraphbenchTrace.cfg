SPECIFICATION TraceSpec
VIEW TraceView
INVARIANT StoreOK
CHECK_DEADLOCK TRUE
