SPECIFICATION Spec
CONSTANTS
  KINDS <- Different
  VALS <- Bits
  COLS <- SomeCols
  SELS <- OneSel
  WIRINGS <- OneWiring
  LEFT <- OneLeft
  RIGHT <- OneRight
  OUT <- OneOut
  PRINTED = "sat"
  ALTERED = TRUE
INVARIANTS Sane Emit
