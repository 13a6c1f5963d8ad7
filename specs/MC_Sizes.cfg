SPECIFICATION Spec
CONSTANTS
  Hs = {1, 65535}
  Ws = {1}
  Ms = {0, 1}
  Third = FALSE
INVARIANT Exact
INVARIANT HideShrinks
INVARIANT FillIff
