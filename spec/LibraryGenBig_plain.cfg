SPECIFICATION Spec
CONSTANTS Fam = "plain"
 Ns = {256, 512, 1024}
 WNs = {256, 512, 1024}
 Depth = 12
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
