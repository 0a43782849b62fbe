SPECIFICATION Spec
CONSTANT D = 2
INVARIANTS Axioms Actions Powers
POSTCONDITION Order
