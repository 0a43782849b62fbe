SPECIFICATION Spec
CONSTANTS Mem = {m1, m2, m3}
          V = 9
          Tol = 4
          MaxDen = 400
INVARIANTS Bracket Witness Progress
CHECK_DEADLOCK FALSE
