INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS N = 6
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK InObject Unambiguous Connected
CHECK_DEADLOCK FALSE
