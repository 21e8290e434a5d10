SPECIFICATION Spec
CONSTANTS ThreadCount = 3
          CallCount = 4
          PauseCount = 2
INVARIANTS OneRuns Report
