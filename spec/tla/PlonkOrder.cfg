SPECIFICATION Spec
CONSTANTS
  NW = 3
  COEFS <- M1_1
  VALS <- M1_0_1
  TERMS = 2
  DEPTH = 1
  SORTED = FALSE
INVARIANTS Inv Emit
