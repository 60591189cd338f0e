INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 2
  Vals <- Two
  Cfgs <- AllCfgs
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK NoneLost
PROPERTIES FrameOK SourceStays KeepsValue NoInvention
CHECK_DEADLOCK FALSE
