SPECIFICATION Spec
CONSTANTS MW = 4 MH = 1 MaxOps = 5 Glyphs = {0, 1, 100}
INVARIANT WellFormed ClipsNest TerminalFollows
PROPERTY ClipRespected
CHECK_DEADLOCK FALSE
