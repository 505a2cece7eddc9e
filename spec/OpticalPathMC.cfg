INIT MInit
NEXT MNext
CONSTANTS NZ = 2
          MaxLen = 3
INVARIANTS LaterOnly TotalIsProduct EmittersOnce SlitUpstreamOnly LastIsUntouched Foreground EdgesOnlyRemove
CHECK_DEADLOCK FALSE
