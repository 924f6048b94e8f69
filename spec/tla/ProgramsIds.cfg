SPECIFICATION Spec
CONSTANTS
  KINDS <- Ids
  VALS <- Bits
  COLS <- BitCols
  SELS <- AllSels
  WIRINGS <- FewWirings
  LEFT <- FewLeft
  RIGHT <- FewRight
  OUT <- FewOut
  PRINTED = "all"
  ALTERED = FALSE
INVARIANTS Sane Emit
