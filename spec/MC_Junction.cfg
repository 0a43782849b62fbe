SPECIFICATION Spec
CONSTANTS NPat = 1
INVARIANTS Touching Listed Occurs StdIdem StdClass Commutes
