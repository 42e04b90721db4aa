SPECIFICATION TwistSpec
CONSTANTS
  M = 64
  Cut = 4096
  D = 109
  Kinds = {"stream"}
  S = 512
  E = 128
  DE = 4
  MaxHoles = 3
  DoFaults = TRUE
  DoEmit = TRUE
  Sizes = {0}
  MaxEntries = 2
  Grains = {0}
  Ns = {9}
INVARIANTS ReadsBack FaultsContained Complete Displaced
CHECK_DEADLOCK FALSE
