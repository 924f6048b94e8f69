SPECIFICATION Spec
CONSTANTS
  BIG = TRUE
  DEPTH = 5
  SIZES = {1, 15, 16}
  QUERIES <- QSmall
INVARIANTS Inv Emit
