INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 3
  Vals <- One
  Cfgs <- TwoCfgs
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK NoneLost
PROPERTIES FrameOK SourceStays KeepsValue NoInvention
CHECK_DEADLOCK FALSE
