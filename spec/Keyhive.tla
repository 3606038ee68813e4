------------------------------- MODULE Keyhive -------------------------------
(***************************************************************************)
(* The keyhive system: peers that create groups and documents, add and     *)
(* revoke members and exchange the resulting signed operations in any      *)
(* order.  One action per public call / per received operation.            *)
(*                                                                         *)
(* T    : every operation that exists (the network: anything in DOMAIN T   *)
(*        can be delivered to anyone at any time, any number of times)     *)
(* held : peer -> operations it has accepted                               *)
(* seen : peer -> operations it was given but could not apply yet          *)
(***************************************************************************)
EXTENDS Calls

CONSTANTS Peers,      \* individuals
          Groups,     \* names available for groups and documents
          Outsider,   \* an individual nobody ever adds; may forge (or "none")
          MaxOps,     \* bound on the number of operations
          Ranks,      \* possible digest ranks
          AnyRank,    \* TRUE: digests in any order; FALSE: in order of creation
          OneByOne    \* TRUE: operations travel alone, in any order; FALSE: as whole syncs

VARIABLES T, held, seen
vars == <<T, held, seen>>

OpName(i) == "o" \o ToString(i)
NOps == Cardinality(DOMAIN T)
FreeRanks == LET F == Ranks \ {T[o].rank : o \in DOMAIN T}
             IN IF AnyRank \/ F = {} THEN F ELSE {Min(F)}
Made == {Subject(T, o) : o \in DOMAIN T}
Individuals == Peers \cup ({Outsider} \ {"none"})
KnownTo(p) == Individuals \cup GroupsOf(T, held[p])
View(p) == ViewOf(T, held[p])

(* revocations of g not yet built upon: cited by the next delegation *)
RevHeads(TT, H, g) ==
  {r \in OpsOf(TT, H, g) : IsRev(TT, r) /\ ~\E d \in H : IsDlg(TT, d) /\ r \in TT[d].after}

Dlg(i, m, can, proof, after, rk) ==
  [k |-> "dlg", issuer |-> i, delegate |-> m, can |-> can, proof |-> proof,
   after |-> after, rank |-> rk, ok |-> TRUE]
Rev(i, d, proof, rk) ==
  [k |-> "rev", issuer |-> i, revoke |-> d, proof |-> proof, rank |-> rk, ok |-> TRUE]

Extend(o, r) == [x \in DOMAIN T \cup {o} |-> IF x = o THEN r ELSE T[x]]

Init == /\ T = [x \in {} |-> 0]
        /\ held = [p \in Peers |-> {}]
        /\ seen = [p \in Peers |-> {}]

----------------------------------------------------------------------------
(* Local calls *)

Create(p, g) ==
  /\ g \notin Made /\ NOps < MaxOps
  /\ \E rk \in FreeRanks :
       LET o == OpName(NOps + 1) IN
       /\ T' = Extend(o, Dlg(g, p, Admin, None, {}, rk))
       /\ held' = [held EXCEPT ![p] = @ \cup {o}]
  /\ UNCHANGED seen

Add(p, on, m, can) ==
  /\ NOps < MaxOps /\ m \in KnownTo(p)
  /\ \E c \in GoodAddChoices(T, View(p), p, on, m, can), rk \in FreeRanks :
       LET o == OpName(NOps + 1) IN
       /\ T' = Extend(o, Dlg(p, m, can, c, RevHeads(T, held[p], on), rk))
       /\ held' = [held EXCEPT ![p] = @ \cup {o}]
  /\ UNCHANGED seen

(* one revocation per call: a member with several delegations is revoked   *)
(* by several steps (RevokeAll in the generator does them in one call)     *)
Revoke(p, on, m, d) ==
  /\ NOps < MaxOps
  /\ d \in RevTargets(View(p), on, m)
  /\ \E c \in RevProofs(T, View(p), p, on, m, d), rk \in FreeRanks :
       /\ RevWorks(T, View(p), p, d, c)
       /\ LET o == OpName(NOps + 1) IN
          /\ T' = Extend(o, Rev(p, d, c, rk))
          /\ held' = [held EXCEPT ![p] = @ \cup {o}]
  /\ UNCHANGED seen

----------------------------------------------------------------------------
(* Receiving: a premature operation is remembered, a ready one is applied  *)
(* together with whatever was waiting for it.                              *)

CanApply(TT, H, p, o) ==
  o \notin H /\ o \in Acceptable(TT, ViewOf(TT, H), Individuals \cup GroupsOf(TT, H), {o})

RECURSIVE Settle(_, _, _)
Settle(H, S, p) ==
  LET A == {o \in S \ H : CanApply(T, H, p, o)}
  IN IF A = {} THEN H ELSE Settle(H \cup {CHOOSE o \in A : TRUE}, S, p)

Receive(p, o) ==
  /\ o \notin held[p] /\ o \notin seen[p]
  /\ LET S == seen[p] \cup {o}
         H == Settle(held[p], S, p)
     IN /\ held' = [held EXCEPT ![p] = H]
        /\ seen' = [seen EXCEPT ![p] = S \ H]
  /\ UNCHANGED T

(* a sync: everything another peer has *)
Sync(p, q) ==
  /\ p # q /\ ~(held[q] \cup seen[q]) \subseteq (held[p] \cup seen[p])
  /\ LET S == seen[p] \cup (held[q] \cup seen[q])
         H == Settle(held[p], S, p)
     IN /\ held' = [held EXCEPT ![p] = H]
        /\ seen' = [seen EXCEPT ![p] = S \ H]
  /\ UNCHANGED T

(* anyone can sign anything: operations that honest peers would not make   *)
ForgeDlg(x, m, can, c, rk) ==
  /\ NOps < MaxOps
  /\ T' = Extend(OpName(NOps + 1), Dlg(x, m, can, c, {}, rk))
  /\ UNCHANGED <<held, seen>>
ForgeRev(x, d, c, rk) ==
  /\ NOps < MaxOps
  /\ T' = Extend(OpName(NOps + 1), Rev(x, d, c, rk))
  /\ UNCHANGED <<held, seen>>

Forge ==
  /\ Outsider # "none"
  /\ \E rk \in FreeRanks :
       \/ \E m \in Individuals, can \in {Read, Admin}, c \in {o \in DOMAIN T : IsDlg(T, o)} :
            ForgeDlg(Outsider, m, can, c, rk)
       \/ \E d, c \in {o \in DOMAIN T : IsDlg(T, o)} : ForgeRev(Outsider, d, c, rk)

Next ==
  \/ \E p \in Peers, g \in Groups : Create(p, g)
  \/ \E p \in Peers, on \in Made : \E m \in KnownTo(p) \ {Outsider}, can \in {Read, Admin} : Add(p, on, m, can)
  \/ \E p \in Peers : \E on \in DOMAIN View(p).M : \E m \in DOMAIN View(p).M[on] :
        \E d \in RevTargets(View(p), on, m) : Revoke(p, on, m, d)
  \/ OneByOne /\ \E p \in Peers, o \in DOMAIN T : Receive(p, o)
  \/ ~OneByOne /\ \E p, q \in Peers : Sync(p, q)
  \/ Forge
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the design, checked exhaustively for small constants.     *)

TypeOK == \A p \in Peers : held[p] \subseteq DOMAIN T /\ seen[p] \subseteq DOMAIN T \ held[p]

(* P02 *)
AuthorityChains ==
  \A p \in Peers : LET V == View(p)  E == EverCaps(T, held[p]) IN
    \A g \in DOMAIN V.M : \A m \in DOMAIN V.M[g] : \A d \in V.M[g][m] : Chained(T, held[p], E, g, d)
OutsiderNeverIn ==
  Outsider # "none" =>
    \A p \in Peers : LET V == View(p) IN
      \A g \in DOMAIN V.M : Outsider \notin DOMAIN V.M[g] /\ Outsider \notin DOMAIN Trans(V.C, g)
(* P04 *)
RevokedStaysOut == \A p \in Peers : LET V == View(p) IN \A g \in DOMAIN V.R : NoRevokedInEffect(T, V.R[g])
OthersUnharmed ==
  \A p \in Peers : LET V == View(p) IN
    \A d \in held[p] : (IsDlg(T, d) /\ Untouched(T, held[p], Subject(T, d), d))
                          => d \in InPlay(V.R[Subject(T, d)])
(* P05: only those with authority take anybody's membership away *)
RevocationsAuthorised ==
  \A p \in Peers : LET V == View(p)  E == EverCaps(T, held[p]) IN
    \A g \in DOMAIN V.R : \A r \in V.R[g].active : RevOK(T, E, r) /\ T[r].issuer # Outsider
(* P06 *)
NoEscalation ==
  \A p \in Peers : \A d \in held[p] : IsDlg(T, d) => \A l \in Links(T, d) : T[d].can <= T[l[2]].can
(* P08: an operation that could be applied is *)
NothingStuck == \A p \in Peers : \A o \in seen[p] : ~CanApply(T, held[p], p, o)
(* P08/P01 without nested authority: whoever was given the same operations *)
(* holds the same operations                                               *)
SameGivenSameHeld ==
  \A p, q \in Peers :
    (held[p] \cup seen[p] = held[q] \cup seen[q]
      /\ \A o \in held[p] \cup seen[p] : ~Nested(T, o)) => held[p] = held[q]
=============================================================================
