SPECIFICATION Spec
CONSTANTS ThreadCount = 4
          CallCount = 4
          PauseCount = 1
INVARIANTS OneRuns Report
