SPECIFICATION Spec
CONSTANTS Pts <- PtsDef Star = FALSE MaxIter = 4 MaxNodes = 4 BlockMax = 3
INVARIANTS Safe Rooted Costs Answer NoAnswer Limits
CHECK_DEADLOCK FALSE
