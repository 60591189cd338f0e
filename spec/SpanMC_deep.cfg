INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Size = 4
  Values = {0, 1, 2}
ACTION_CONSTRAINT Emit
INVARIANTS Inside
PROPERTIES ReadOnly Shrinks
CHECK_DEADLOCK FALSE
