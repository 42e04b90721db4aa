SPECIFICATION Spec
CONSTANTS
  M = 64
  Cut = 4096
  D = 109
  Kinds = {"stream"}
  S = 4096
  E = 1024
  DE = 32
  MaxHoles = 0
  DoFaults = TRUE
  DoEmit = TRUE
  Sizes = {4096,8193,100}
  MaxEntries = 1
  Grains = {1}
INVARIANTS ReadsBack Complete
CHECK_DEADLOCK FALSE
