SPECIFICATION Spec
CONSTRAINT Constraint
