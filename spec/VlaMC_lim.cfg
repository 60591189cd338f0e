INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 2
  MaxLen = 3
  Ks <- K4
  Pos <- PAll
  MaxRuns = 99
  Vals <- One
  Als <- One
  Lims <- LSmall
  Faults <- NA
  Kinds <- All
  Cfgs <- LimCfgs
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Bounded OffIsEmpty
PROPERTIES FrameOK CopyKeepsSource
CHECK_DEADLOCK FALSE
