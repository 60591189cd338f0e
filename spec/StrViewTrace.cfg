INIT TInit
NEXT TNext
INVARIANTS Inside
