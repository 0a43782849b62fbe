SPECIFICATION Spec
CONSTANTS NPat = 2
INVARIANTS Touching Listed Occurs StdIdem StdClass Commutes
