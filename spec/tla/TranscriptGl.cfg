SPECIFICATION Spec
CONSTANTS
  BIG = FALSE
  DEPTH = 4
  SIZES = {1, 3, 7, 8, 9}
  QUERIES <- QSmall
INVARIANTS Inv Emit
