INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Kinds <- TTU
  Vals <- Two
  Faults <- AllFaults
  Cfgs <- AllCfgs
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Plain
PROPERTIES FrameOK SourceStays KeepsValue
CHECK_DEADLOCK FALSE
