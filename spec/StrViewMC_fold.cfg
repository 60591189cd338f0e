INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Letters = {1, 2, 3}
  MaxHay = 2
  MaxNeedle = 1
  Folds = {TRUE}
ACTION_CONSTRAINT Emit
INVARIANTS Inside Antisymmetric Found Stepwise Prefixes
CHECK_DEADLOCK FALSE
