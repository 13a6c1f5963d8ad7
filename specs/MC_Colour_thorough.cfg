SPECIFICATION Spec
CONSTANTS Levels = {0, 1, 90, 128, 200, 255}
  Dens = {0, 7, 16}
INVARIANTS Mixes Compositing Inverts Readable Lights
CHECK_DEADLOCK FALSE
