INIT MCInit
NEXT MCNext
VIEW View
CONSTANTS
  Letters = {0, 3}
  MaxHay = 3
  MaxNeedle = 2
  Folds = {FALSE}
ACTION_CONSTRAINT Emit
INVARIANTS Inside Antisymmetric Found Stepwise Prefixes
CHECK_DEADLOCK FALSE
