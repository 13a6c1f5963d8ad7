SPECIFICATION TraceSpec
INVARIANT WellFormed ClipsNest
