CONSTANTS a = a b = b
CONSTANTS Peers = {a,b}  Founder = a  MaxCg = 5  MaxPk = 3  MaxCt = 1
  SPECIFICATION Spec
INVARIANTS AlwaysAKey NoGaps Bounds MembersHoldKeys KeyedMeansKey SecretsStayIn ContentReadable NeverInNeverReads EpochInPast
CHECK_DEADLOCK FALSE
