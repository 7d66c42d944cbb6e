SPECIFICATION Spec
CONSTANTS
  Proc = {p1, p2}
  Kern = {k1, k2}
  Direct = FALSE
  MaxDamage = 1
  MaxCrash = 2
INVARIANTS Safe Atomic
CHECK_DEADLOCK FALSE
