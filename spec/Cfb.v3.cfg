SPECIFICATION Spec
CONSTANTS
  M = 64
  Cut = 4096
  D = 109
  Kinds = {"stream","storage","unused"}
  S = 512
  E = 128
  DE = 4
  MaxHoles = 3
  DoFaults = TRUE
  DoEmit = TRUE
  Sizes = {0,1,63,64,65,511,512,513,4032,4095,4096,4097,4607,4608,4609,5120,9000}
  MaxEntries = 14
  Grains = {0,1,3}
INVARIANTS ReadsBack Complete
CHECK_DEADLOCK FALSE
