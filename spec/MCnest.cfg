CONSTANTS a = a b = b g1 = g1 g2 = g2
CONSTANTS Peers = {a,b}  Groups = {g1,g2}  Outsider = "none"  MaxOps = 4  Ranks = {1,2,3,4}  AnyRank = FALSE  OneByOne = FALSE
  SPECIFICATION Spec
INVARIANTS TypeOK AuthorityChains OutsiderNeverIn RevokedStaysOut OthersUnharmed RevocationsAuthorised NoEscalation NothingStuck SameGivenSameHeld
SYMMETRY Sym
CHECK_DEADLOCK FALSE
