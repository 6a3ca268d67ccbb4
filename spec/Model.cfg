CONSTANTS NameSet = {"a", "b", "c"}
 MaxDecls = 3
 MaxCons = 2
SPECIFICATION MSpec
INVARIANTS Unique DomainsDistinct
PROPERTY OrderKept
CHECK_DEADLOCK FALSE
