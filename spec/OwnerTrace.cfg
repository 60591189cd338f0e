INIT TInit
NEXT TNext
INVARIANTS OwnedOnce DeleterFits
