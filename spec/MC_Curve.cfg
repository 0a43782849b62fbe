SPECIFICATION Spec
INVARIANTS Well ImageLaw Compose Partition ContinuityInvariant Junctions
