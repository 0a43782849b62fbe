SPECIFICATION Spec
CONSTANTS Pos = {1, 2}
          Specs = {s, z}
          MaxForb = 2
INVARIANTS Exact
CHECK_DEADLOCK FALSE
