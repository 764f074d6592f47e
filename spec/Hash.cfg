CONSTANTS Values = {0, 1, 2}
          HashValues = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS EqualHashEqual Agrees
