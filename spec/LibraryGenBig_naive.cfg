SPECIFICATION Spec
CONSTANTS Fam = "naive"
 Ns = {256, 512, 1024}
 WNs = {256, 512, 1024}
 Depth = 12
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
