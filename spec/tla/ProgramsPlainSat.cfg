SPECIFICATION Spec
CONSTANTS
  KINDS <- Plain
  VALS <- Bits
  COLS <- BitCols
  SELS <- AllSels
  WIRINGS <- FewWirings
  LEFT <- Leaves
  RIGHT <- Leaves
  OUT <- Leaves
  PRINTED = "sat"
  ALTERED = FALSE
INVARIANTS Sane Emit
