SPECIFICATION Spec
INVARIANTS Ends Vertices Faces Digits
