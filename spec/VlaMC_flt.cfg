INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 2
  MaxLen = 2
  Ks <- K3
  Pos <- PAll
  MaxRuns = 99
  Vals <- One
  Als <- OneTwo
  Lims <- LBig
  Faults <- NAE
  Kinds <- PairKinds
  Cfgs <- SeqCfgs
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Bounded OffIsEmpty
PROPERTIES FrameOK CopyKeepsSource
CHECK_DEADLOCK FALSE
