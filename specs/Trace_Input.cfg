SPECIFICATION TraceSpec
INVARIANTS CursorInRange CursorOnBoundary
