SPECIFICATION Spec
INVARIANT Conforms
