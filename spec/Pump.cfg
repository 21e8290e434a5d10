SPECIFICATION Spec
VIEW Look
INVARIANTS Report Grows
