SPECIFICATION WalkSpec
CONSTANTS ViewDepth = 1
          MaxTokens = 1000
          ShapeDepth = 1
VIEW Place
INVARIANTS Sane Report Legal
