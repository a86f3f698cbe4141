SPECIFICATION Spec
INVARIANTS PinkInv SemiInv FilterInv LevelInv WhiteInv PsdInv WelchInv TkInv ParInv
CHECK_DEADLOCK FALSE
