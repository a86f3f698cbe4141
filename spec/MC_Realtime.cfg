SPECIFICATION Spec
INVARIANT Inv
PROPERTY Grows
CHECK_DEADLOCK FALSE
