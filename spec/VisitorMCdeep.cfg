SPECIFICATION Spec
CONSTANT MaxNodes = 6
INVARIANTS OnceEach Nested InOrder Complete SkipsExactly NothingAfterError SpansRight Balanced AtExit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
