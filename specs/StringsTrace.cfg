SPECIFICATION TSpec
INVARIANTS TrimIsPrefix
CHECK_DEADLOCK FALSE
