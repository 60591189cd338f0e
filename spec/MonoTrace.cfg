INIT TInit
NEXT TNext
INVARIANTS Separate Inside OneOwner
