SPECIFICATION Spec
CONSTANTS
  BIG = FALSE
  IDX = 0
  LIE = 7777
  HEIGHTS = {1, 2, 3, 4, 5, 7}
  WIDTHS = {1, 3, 4, 5, 9, 17}
  KINDS = {0, 1, 2}
INVARIANTS Inv Emit
