SPECIFICATION Spec
CONSTANTS
  BIG = FALSE
  DEPTH = 5
  SIZES = {1, 7, 8}
  QUERIES <- QSmall
INVARIANTS Inv Emit
