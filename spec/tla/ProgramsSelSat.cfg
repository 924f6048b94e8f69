SPECIFICATION Spec
CONSTANTS
  KINDS <- Selected
  VALS <- Bits
  COLS <- BitCols
  SELS <- FewSels
  WIRINGS <- FewWirings
  LEFT <- Leaves
  RIGHT <- Leaves
  OUT <- Leaves
  PRINTED = "sat"
  ALTERED = FALSE
INVARIANTS Sane Emit
