SPECIFICATION Spec
CONSTANTS
    Mid = 2
    Most10 = 2
    KeySet = {"a", "s", "x", "e", "d", "b", "z", "tab", "backtab", "r", "f", "h", "j", "g", "q", "m", "M", "R", "G"}
INVARIANTS FocusLive NoDebt Held Rowed TipHovered Ended
PROPERTIES ToldOnce CountShown KeyOrder PaletteApart
VIEW View
CHECK_DEADLOCK FALSE
