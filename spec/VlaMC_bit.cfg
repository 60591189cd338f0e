INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 1
  MaxLen = 9
  Ks <- KBits
  Pos <- PBits
  MaxRuns = 3
  Vals <- Bits
  Als <- One
  Lims <- LBig
  Faults <- OnlyN
  Kinds <- BitKinds
  Cfgs <- BitCfgs
ACTION_CONSTRAINT Emit
CONSTRAINT FewRuns
INVARIANTS TypeOK Bounded OffIsEmpty
PROPERTIES FrameOK CopyKeepsSource
CHECK_DEADLOCK FALSE
