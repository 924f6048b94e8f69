SPECIFICATION Spec
CONSTANTS
  NW = 3
  COEFS <- M1_0_2
  VALS <- M1_0_1_2
  TERMS = 2
  DEPTH = 1
  SORTED = TRUE
INVARIANTS Inv Emit
