SPECIFICATION TraceSpec
INVARIANT NoHalves
