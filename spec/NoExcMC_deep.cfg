INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS Vals = {1, 2, 3}
INVARIANTS TypeOK OneReadable Prefix
PROPERTY ReadingChangesNothing
CHECK_DEADLOCK FALSE
