SPECIFICATION Spec
CONSTANTS Which = "hilbert"
          Kind = "linf"
          MaxT = 40
INVARIANTS Sound Consistent
PROPERTY Nesting
