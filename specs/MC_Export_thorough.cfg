SPECIFICATION Spec
CONSTANTS
  W = 4
  Colours = {0, 5}
  Ats = {0, 4, 33}
INVARIANTS Faithful Prefix Maximal
