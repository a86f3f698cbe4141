SPECIFICATION Spec
INVARIANTS OutIsLast Complete PicIsPast
PROPERTY Frame
CHECK_DEADLOCK FALSE
