SPECIFICATION Spec
CONSTANTS Pts <- PtsDef Star = FALSE MaxIter = 6 MaxNodes = 5 BlockMax = 10
INVARIANTS Safe Rooted Costs Answer NoAnswer Limits
CHECK_DEADLOCK FALSE
