SPECIFICATION Spec
CONSTANTS
  M = 64
  Cut = 4096
  D = 109
  Kinds = {"stream","storage","unused"}
  S = 4096
  E = 1024
  DE = 32
  MaxHoles = 3
  DoFaults = TRUE
  DoEmit = TRUE
  Sizes = {0,1,64,65,2000,4095,4096,4097,8191,8192,8193,12288}
  MaxEntries = 40
  Grains = {0,1,2}
INVARIANTS ReadsBack Complete
CHECK_DEADLOCK FALSE
