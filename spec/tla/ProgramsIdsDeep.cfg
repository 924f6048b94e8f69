SPECIFICATION Spec
CONSTANTS
  KINDS <- Ids
  VALS <- Bits
  COLS <- BitCols
  SELS <- AllSels
  WIRINGS <- FewWirings
  LEFT <- Leaves
  RIGHT <- Leaves
  OUT <- Leaves
  PRINTED = "all"
  ALTERED = FALSE
INVARIANTS Sane Emit
