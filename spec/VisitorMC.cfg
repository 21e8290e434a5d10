SPECIFICATION Spec
CONSTANT MaxNodes = 4
INVARIANTS OnceEach Nested InOrder Complete SkipsExactly NothingAfterError SpansRight Balanced AtExit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
