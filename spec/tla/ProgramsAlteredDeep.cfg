SPECIFICATION Spec
CONSTANTS
  KINDS <- Different
  VALS <- Bits
  COLS <- BitCols
  SELS <- OneSel
  WIRINGS <- FewWirings
  LEFT <- OneLeft
  RIGHT <- OneRight
  OUT <- OneOut
  PRINTED = "sat"
  ALTERED = TRUE
INVARIANTS Sane Emit
