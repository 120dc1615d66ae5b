SPECIFICATION Spec
CONSTANTS Pts <- PtsDef Star = TRUE MaxIter = 6 MaxNodes = 5 BlockMax = 10
INVARIANTS Safe Rooted Costs Answer NoAnswer Limits
CHECK_DEADLOCK FALSE
