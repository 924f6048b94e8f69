SPECIFICATION Spec
CONSTANTS
  BIG = TRUE
  DEPTH = 3
  SIZES <- WideBig
  QUERIES <- QWide
INVARIANTS Inv Emit
