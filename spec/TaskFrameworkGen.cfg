INIT GInit
NEXT GNext
CONSTANTS Values = {"none", "zero", "false", "empty", "v1", "v2"}
          MaxDepth = 3
          MaxCalls = 8
INVARIANT Out
CHECK_DEADLOCK FALSE
