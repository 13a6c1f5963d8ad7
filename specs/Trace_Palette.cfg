SPECIFICATION TraceSpec
CONSTRAINT Mark
POSTCONDITION AllAccepted
