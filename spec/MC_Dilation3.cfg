SPECIFICATION Spec
CONSTANTS Which = "line"
          Kind = "l1"
          MaxT = 300
INVARIANTS Sound Consistent
PROPERTY Nesting
