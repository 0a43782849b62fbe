SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Exactly NonEmpty AllContinuous
