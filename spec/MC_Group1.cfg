SPECIFICATION Spec
CONSTANT D = 1
INVARIANTS Axioms Actions Powers
POSTCONDITION Order
