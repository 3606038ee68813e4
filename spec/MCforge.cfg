CONSTANTS a = a b = b g1 = g1 x = x
CONSTANTS Peers = {a,b}  Groups = {g1}  Outsider = x  MaxOps = 4  Ranks = {1,2,3,4}  AnyRank = FALSE  OneByOne = FALSE
  SPECIFICATION Spec
INVARIANTS TypeOK AuthorityChains OutsiderNeverIn RevokedStaysOut OthersUnharmed RevocationsAuthorised NoEscalation NothingStuck SameGivenSameHeld
SYMMETRY Sym
CHECK_DEADLOCK FALSE
