SPECIFICATION Spec
INVARIANTS Pos Strict Pieces
PROPERTY Mono
CHECK_DEADLOCK FALSE
