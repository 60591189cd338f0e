INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 2
  Vals <- One
  Faults <- AllFaults
  Cfgs <- FullCfgs
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK OffIsEmpty
PROPERTIES FrameOK CopyKeepsSource MoveEmpties NoInvention
CHECK_DEADLOCK FALSE
