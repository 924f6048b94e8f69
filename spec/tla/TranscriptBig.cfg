SPECIFICATION Spec
CONSTANTS
  BIG = TRUE
  DEPTH = 4
  SIZES = {1, 6, 15, 16, 17}
  QUERIES <- QSmall
INVARIANTS Inv Emit
