SPECIFICATION Spec
INVARIANTS Listed Continuous Symmetric SelfParent
