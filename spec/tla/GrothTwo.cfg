SPECIFICATION Spec
CONSTANTS
  SETUPS = 2
  PROOFS = 2
  CIRCUITS <- Two
INVARIANTS Inv Emit
