SPECIFICATION Spec
INVARIANTS EdfRange TabClose NidInv ChiMono
CHECK_DEADLOCK FALSE
