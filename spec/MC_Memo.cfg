SPECIFICATION Spec
CONSTANTS Args = {a, b}
          Size = 2
INVARIANTS Right Bounded
CHECK_DEADLOCK FALSE
