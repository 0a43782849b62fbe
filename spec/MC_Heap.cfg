SPECIFICATION Spec
CONSTANTS V = 2
          MaxLen = 6
          MaxItems = 3
INVARIANTS Conserved DroppedGood ActiveOk BadOk CopyOk
VIEW View
CHECK_DEADLOCK FALSE
