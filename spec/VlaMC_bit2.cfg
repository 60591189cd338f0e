INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 2
  MaxLen = 9
  Ks <- KB3
  Pos <- PAll
  MaxRuns = 1
  Vals <- Bits
  Als <- OneTwo
  Lims <- LBig
  Faults <- OnlyN
  Kinds <- BitPairKinds
  Cfgs <- BitPairCfgs
ACTION_CONSTRAINT Emit
CONSTRAINT FewRuns
INVARIANTS TypeOK Bounded OffIsEmpty
PROPERTIES FrameOK CopyKeepsSource
CHECK_DEADLOCK FALSE
