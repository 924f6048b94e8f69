SPECIFICATION Spec
CONSTANTS
  BIG = TRUE
  IDX = 1
  LIE = 7777
  HEIGHTS = {1, 2, 5, 16, 17, 19}
  WIDTHS = {1, 4, 46, 49}
  KINDS = {0, 2}
INVARIANTS Inv Emit
