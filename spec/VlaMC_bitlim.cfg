INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 1
  MaxLen = 17
  Ks <- KBits2
  Pos <- PBits
  MaxRuns = 99
  Vals <- One
  Als <- One
  Lims <- LBits
  Faults <- NA
  Kinds <- BitKinds
  Cfgs <- BitLimCfgs
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Bounded OffIsEmpty
PROPERTIES FrameOK CopyKeepsSource
CHECK_DEADLOCK FALSE
