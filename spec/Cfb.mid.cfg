SPECIFICATION Spec
CONSTANTS
  M = 64
  Cut = 4096
  D = 109
  Kinds = {"stream"}
  S = 512
  E = 128
  DE = 4
  MaxHoles = 3
  DoFaults = TRUE
  DoEmit = TRUE
  Sizes = {3000,4095,4096,30000,64000,65536,70000,131072,200000}
  MaxEntries = 4
  Grains = {0,7,50}
INVARIANTS Complete
CHECK_DEADLOCK FALSE
