SPECIFICATION Spec
CONSTANTS
  NW = 4
  COEFS <- M1_1
  VALS <- M1_0_1
  TERMS = 3
  DEPTH = 1
  SORTED = TRUE
INVARIANTS Inv Emit
