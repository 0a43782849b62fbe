SPECIFICATION Spec
INVARIANTS InGrid UnitStep Nested Onto
CHECK_DEADLOCK FALSE
