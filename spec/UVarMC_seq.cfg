INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 2
  Vals <- Two
  Faults <- NoFault
  Cfgs <- AllCfgs
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK OffIsEmpty
PROPERTIES FrameOK CopyKeepsSource MoveEmpties NoInvention
CHECK_DEADLOCK FALSE
