SPECIFICATION Spec
CONSTANTS Fam = "plain"
 Ns = {2, 4, 8, 16, 32, 64}
 WNs = {16}
 Depth = 24
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
