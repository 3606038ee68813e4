CONSTANTS a = a b = b c = c g1 = g1
CONSTANTS Peers = {a,b,c}  Groups = {g1}  Outsider = "none"  MaxOps = 4  Ranks = {1,2,3,4}  AnyRank = TRUE  OneByOne = FALSE
  SPECIFICATION Spec
INVARIANTS TypeOK AuthorityChains OutsiderNeverIn RevokedStaysOut OthersUnharmed RevocationsAuthorised NoEscalation NothingStuck SameGivenSameHeld
SYMMETRY Sym
CHECK_DEADLOCK FALSE
