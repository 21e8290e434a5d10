SPECIFICATION Spec
CONSTANTS ThreadCount = 3
          CallCount = 3
          PauseCount = 2
INVARIANTS OneRuns Report
