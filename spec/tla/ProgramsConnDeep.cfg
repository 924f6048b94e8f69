SPECIFICATION Spec
CONSTANTS
  KINDS <- Wired
  VALS <- Bits
  COLS <- BitCols
  SELS <- AllSels
  WIRINGS <- AllWirings
  LEFT <- Leaves
  RIGHT <- Leaves
  OUT <- Leaves
  PRINTED = "all"
  ALTERED = FALSE
INVARIANTS Sane Emit
