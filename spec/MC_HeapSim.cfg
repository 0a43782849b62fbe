SPECIFICATION Spec
CONSTANTS V = 5
          MaxLen = 24
          MaxItems = 14
INVARIANTS Conserved DroppedGood ActiveOk BadOk CopyOk Emit
CHECK_DEADLOCK FALSE
