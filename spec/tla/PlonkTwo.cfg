SPECIFICATION Spec
CONSTANTS
  NW = 3
  COEFS <- M1_1
  VALS <- M1_0_1
  TERMS = 1
  DEPTH = 2
  SORTED = TRUE
INVARIANTS Inv Emit
