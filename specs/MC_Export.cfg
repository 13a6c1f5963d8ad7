SPECIFICATION Spec
CONSTANTS
  W = 3
  Colours = {0, 5}
  Ats = {0, 4}
INVARIANTS Faithful Prefix Maximal
