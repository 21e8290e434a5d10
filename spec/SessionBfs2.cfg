SPECIFICATION Spec
CONSTANTS NameCount = 2
          TextCount = 3
          BadCount = 1
VIEW Look
INVARIANTS Fresh Report
