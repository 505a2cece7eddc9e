INIT TInit
NEXT TNext
CONSTANTS Values = {"none", "zero", "false", "empty", "v1", "v2"}
          MaxDepth = 99
          MaxCalls = 999999
INVARIANT Report
CHECK_DEADLOCK FALSE
