SPECIFICATION Spec
CONSTANTS ViewDepth = 5
          MaxTokens = 60
VIEW Situation
INVARIANTS Sane Report
