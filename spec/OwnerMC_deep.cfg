CONSTANTS NS = 3
          Fams = {1, 5}
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OwnedOnce DeleterFits
PROPERTY Balance
CHECK_DEADLOCK FALSE
