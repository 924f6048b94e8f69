SPECIFICATION Spec
CONSTANTS
  BIG = TRUE
  IDX = 1
  LIE = 7777
  HEIGHTS = {1, 2, 3, 15}
  WIDTHS = {1, 4}
  KINDS = {0, 1, 2}
INVARIANTS Inv Emit
