SPECIFICATION Spec
CONSTANTS Values = {"none", "v1"}
          MaxDepth = 2
          MaxCalls = 2
INVARIANT OwnParamsOnly
INVARIANT Distinct
PROPERTY SeenStable
PROPERTY RejectInert
CHECK_DEADLOCK FALSE
