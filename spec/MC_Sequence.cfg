SPECIFICATION Spec
CONSTANTS NC = 3
          V = 4
          Widths <- W3
INVARIANTS Bracket WinnerKept NoneOnlyIfWorse ListedNear
CHECK_DEADLOCK FALSE
