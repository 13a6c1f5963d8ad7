SPECIFICATION TraceSpec
INVARIANT OffsetsInBounds
