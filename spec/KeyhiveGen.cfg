CONSTANTS Peers = {"a","b","c","e"}  Groups = {"g1"}  Outsider = "none"  MaxOps = 100000  Ranks = {1}  AnyRank = TRUE OneByOne = TRUE
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
