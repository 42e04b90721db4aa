SPECIFICATION Spec
CONSTANTS
  M = 64
  Cut = 4096
  D = 109
  Kinds = {"stream"}
  S = 512
  E = 128
  DE = 4
  MaxHoles = 3
  DoFaults = TRUE
  DoEmit = TRUE
  Sizes = {100,6950000,7040000,7116800,15308800,15360000}
  MaxEntries = 2
  Grains = {0,100,1000}
CHECK_DEADLOCK FALSE
