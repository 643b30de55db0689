SPECIFICATION Spec
INVARIANT Inv
CONSTRAINT Constraint
