SPECIFICATION Spec
CONSTANTS
  M = 1
  Cut = 4
  D = 1
  Kinds = {"stream"}
  S = 2
  E = 4
  DE = 2
  MaxHoles = 0
  DoFaults = TRUE
  DoEmit = FALSE
  Sizes = {0,2,5}
  MaxEntries = 1
  Grains = {0,1}
INVARIANTS ReadsBack FaultsContained Complete
CHECK_DEADLOCK FALSE
