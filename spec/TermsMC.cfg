SPECIFICATION Spec
INVARIANT Laws
CONSTRAINT Constraint
