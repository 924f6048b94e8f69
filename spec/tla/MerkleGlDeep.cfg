SPECIFICATION Spec
CONSTANTS
  BIG = FALSE
  IDX = 0
  LIE = 7777
  HEIGHTS = {1, 2, 3, 4, 5, 6, 8, 9}
  WIDTHS = {1, 4, 5, 17}
  KINDS = {0, 2}
INVARIANTS Inv Emit
