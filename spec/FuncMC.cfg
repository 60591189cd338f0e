INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  NSlots = 2
  Vals <- Two
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK OffIsEmpty
PROPERTIES FrameOK CopyKeepsSource CallKeepsTarget
CHECK_DEADLOCK FALSE
