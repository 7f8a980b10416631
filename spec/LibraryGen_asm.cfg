SPECIFICATION Spec
CONSTANTS Fam = "asm"
 Ns = {16, 32, 64}
 WNs = {16}
 Depth = 24
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
