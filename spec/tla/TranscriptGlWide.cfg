SPECIFICATION Spec
CONSTANTS
  BIG = FALSE
  DEPTH = 3
  SIZES <- WideGl
  QUERIES <- QWide
INVARIANTS Inv Emit
