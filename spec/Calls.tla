-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* What the calls of a peer do, as functions of its view.                  *)
(*   V = [held : set of operations the peer has accepted,                  *)
(*        M : group -> (member -> delegations in effect),                  *)
(*        C : group -> (member -> access)]                                 *)
(* Used both by the state machine and by the trace monitor.                *)
(***************************************************************************)
EXTENDS Membership

GroupsOf(T, H) == {Subject(T, o) : o \in {x \in H : IsMemOp(T, x)}}

ViewOf(T, H) ==
  LET G == GroupsOf(T, H)
      R == [g \in G |-> Replay(T, H, g)]
      M == [g \in G |-> MembersOf(T, R[g])]
  IN [held |-> H, R |-> R, M |-> M, C |-> [g \in G |-> CapsOf(T, M[g])]]

CapOf(C, g, m) == IF g \in DOMAIN C /\ m \in DOMAIN C[g] THEN C[g][m] ELSE -1
TopDlgs(T, V, g, m) == {d \in V.M[g][m] : T[d].can = V.C[g][m]}

----------------------------------------------------------------------------
(* add_member: which proofs may the caller use? *)
AddChoices(T, V, p, on, can) ==
  IF on \notin DOMAIN V.C THEN {}
  ELSE IF can <= CapOf(V.C, on, p) THEN TopDlgs(T, V, on, p)
  ELSE UNION {TopDlgs(T, V, on, m) :
                m \in {x \in DOMAIN V.C[on] :
                         V.C[on][x] >= can /\ HasTrans(V.C, x, {on}, p, can)}}

HypDlg(p, m, can, proof) ==
  [k |-> "dlg", issuer |-> p, delegate |-> m, can |-> can, proof |-> proof, after |-> {}, rank |-> 0]
WithOp(T, name, op) == [x \in DOMAIN T \cup {name} |-> IF x = name THEN op ELSE T[x]]

AddWorks(T, V, p, on, m, can, c) ==
  DlgOK(WithOp(T, "hyp", HypDlg(p, m, can, c)), V.C, "hyp")

GoodAddChoices(T, V, p, on, m, can) ==
  {c \in AddChoices(T, V, p, on, can) : AddWorks(T, V, p, on, m, can, c)}

(* May this caller add with this access?  AddMust: whatever proof is picked *)
AddMay(T, V, p, on, m, can)  == GoodAddChoices(T, V, p, on, m, can) # {}
AddMust(T, V, p, on, m, can) ==
  AddChoices(T, V, p, on, can) # {} /\ GoodAddChoices(T, V, p, on, m, can) = AddChoices(T, V, p, on, can)

----------------------------------------------------------------------------
(* revoke_member: which proofs does the caller cite for revoking d?        *)
(* Its own admin delegations when leaving, the delegation itself or the    *)
(* nearest ancestor it issued, else a group through which it has access.   *)
RECURSIVE NearestIssued(_, _, _)
NearestIssued(T, p, d) ==
  IF d = None THEN {}
  ELSE IF T[d].issuer = p THEN {d}
  ELSE NearestIssued(T, p, T[d].proof)

RevDirectProofs(T, V, p, on, m, d) ==
  (IF m = p THEN {x \in V.M[on][p] : T[x].can = Admin /\ (x = d \/ x \in Lineage(T, d))} ELSE {})
  \cup NearestIssued(T, p, d)

\* (a group being removed proves each revocation with the delegation it revokes:
\* any other one is on its way out too)
RevNestedProofs(T, V, p, on, m, d) ==
  UNION {IF x = m THEN {d} ELSE TopDlgs(T, V, on, x) :
           x \in {y \in DOMAIN V.C[on] :
                    V.C[on][y] >= T[d].can /\ HasTrans(V.C, y, {on}, p, T[d].can)}}

RevProofs(T, V, p, on, m, d) ==
  LET D == RevDirectProofs(T, V, p, on, m, d)
  IN IF D # {} THEN D ELSE RevNestedProofs(T, V, p, on, m, d)

RevTargets(V, on, m) ==
  IF on \in DOMAIN V.M /\ m \in DOMAIN V.M[on] THEN V.M[on][m] ELSE {}

HypRev(p, d, proof) == [k |-> "rev", issuer |-> p, revoke |-> d, proof |-> proof, rank |-> 0]
RevWorks(T, V, p, d, c) == RevOK(WithOp(T, "hyp", HypRev(p, d, c)), V.C, "hyp")

RevMay(T, V, p, on, m) ==
  \A d \in RevTargets(V, on, m) : \E c \in RevProofs(T, V, p, on, m, d) : RevWorks(T, V, p, d, c)
RevMust(T, V, p, on, m) ==
  \A d \in RevTargets(V, on, m) :
     /\ RevProofs(T, V, p, on, m, d) # {}
     /\ \A c \in RevProofs(T, V, p, on, m, d) : RevWorks(T, V, p, d, c)

----------------------------------------------------------------------------
(* Receiving.  Ready: everything the operation refers to is known.         *)
Ready(T, H, Known, o) ==
  /\ IsMemOp(T, o)
  /\ T[o].ok
  /\ Parents(T, o) \subseteq H
  /\ Subject(T, o) # "unknown"
  /\ IsDlg(T, o) => /\ T[o].delegate \in Known
                    /\ \A r \in T[o].after : Subject(T, r) = Subject(T, o)

(* one pass: everything acceptable in this view *)
Acceptable(T, V, Known, S) ==
  {o \in S : Ready(T, V.held, Known, o) /\ OpOK(T, V.C, o)}
=============================================================================
