SPECIFICATION TraceSpec
INVARIANT OffsetsInBounds
CONSTRAINT Mark
POSTCONDITION AllAccepted
