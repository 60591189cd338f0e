CONSTANTS T = {1, 2, 3}
          Vals = {1, 2}
          Budget = 3
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Conserved
PROPERTY Apart
CHECK_DEADLOCK FALSE
