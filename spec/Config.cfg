SPECIFICATION Spec
INVARIANTS NeverGarbage MixFails
