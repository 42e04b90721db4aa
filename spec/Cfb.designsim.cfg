SPECIFICATION Spec
CONSTANTS
  M = 1
  Cut = 4
  D = 1
  Kinds = {"stream","unused"}
  S = 2
  E = 4
  DE = 2
  MaxHoles = 1
  DoFaults = TRUE
  DoEmit = FALSE
  Sizes = {0,1,3,4,5,7}
  MaxEntries = 4
  Grains = {0,1,2}
INVARIANTS ReadsBack FaultsContained Complete
CHECK_DEADLOCK FALSE
