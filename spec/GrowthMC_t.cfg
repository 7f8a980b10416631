SPECIFICATION Spec
CONSTANTS Q = 12289
 InB = 21499
 Ns = {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
 AllUpTo = 32
 Some = {1, 3, 5, 7, 77, 1001, 2047, 4095}
INVARIANTS Fits ProductsFit Margin
CHECK_DEADLOCK FALSE
