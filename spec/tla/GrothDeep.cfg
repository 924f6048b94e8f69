SPECIFICATION Spec
CONSTANTS
  SETUPS = 2
  PROOFS = 2
  CIRCUITS <- Three
INVARIANTS Inv Emit
