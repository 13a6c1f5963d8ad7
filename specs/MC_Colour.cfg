SPECIFICATION Spec
CONSTANTS Levels = {0, 90, 128, 255}
  Dens = {0, 3, 8, 15, 16}
INVARIANTS Mixes Compositing Inverts Readable Lights
CHECK_DEADLOCK FALSE
