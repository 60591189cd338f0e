INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Kinds <- TTTU
  Vals <- Two
  Faults <- AllFaults
  Cfgs <- AllCfgs
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Plain
PROPERTIES FrameOK SourceStays KeepsValue
CHECK_DEADLOCK FALSE
