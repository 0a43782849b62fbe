SPECIFICATION Spec
CONSTANTS Which = "hilbert"
          Kind = "l1"
          MaxT = 30
INVARIANTS Sound Consistent
PROPERTY Nesting
