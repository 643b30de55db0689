SPECIFICATION Spec
INVARIANT Inv
PROPERTY Local
CONSTRAINT Constraint
