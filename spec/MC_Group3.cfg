SPECIFICATION Spec
CONSTANT D = 3
INVARIANTS Axioms Actions Powers
POSTCONDITION Order
