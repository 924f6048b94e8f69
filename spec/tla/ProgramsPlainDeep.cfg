SPECIFICATION Spec
CONSTANTS
  KINDS <- Unwired
  VALS <- Trits
  COLS <- TritCols
  SELS <- AllSels
  WIRINGS <- AllWirings
  LEFT <- Leaves
  RIGHT <- Leaves
  OUT <- Leaves
  PRINTED = "all"
  ALTERED = FALSE
INVARIANTS Sane Emit
