----------------------------- MODULE Membership -----------------------------
(***************************************************************************)
(* The membership algebra of keyhive: what a set of delegations and        *)
(* revocations means.  Everything here is a pure function of               *)
(*   T : op name -> record  (the operation table; immutable facts)         *)
(*       delegation  [k |-> "dlg", issuer, delegate, can, proof,           *)
(*                    after : set of revocations, rank]                    *)
(*       revocation  [k |-> "rev", issuer, revoke, proof, rank]            *)
(*     rank is the position of the operation's digest (only its order is   *)
(*     ever used), proof = "none" means "issued by the group key itself"   *)
(*   H : the set of operations a peer holds.                               *)
(* It is used by the state machine (Keyhive.tla), by the bounded model     *)
(* checking configurations and by the trace monitors.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

None == "none"
Relay == 0   Read == 1   Edit == 2   Admin == 3
AccessLevels == Relay..Admin
Min2(a, b) == IF a <= b THEN a ELSE b

IsDlg(T, o) == o \in DOMAIN T /\ T[o].k = "dlg"
IsRev(T, o) == o \in DOMAIN T /\ T[o].k = "rev"
IsMemOp(T, o) == o \in DOMAIN T /\ T[o].k \in {"dlg", "rev"}

----------------------------------------------------------------------------
(* Structure: which group an operation is about, what it builds on. *)

RECURSIVE Subject(_, _)
Subject(T, o) ==
  IF ~IsMemOp(T, o) THEN "unknown"
  ELSE IF T[o].k = "rev" THEN Subject(T, T[o].revoke)
  ELSE IF T[o].proof = None THEN T[o].issuer
  ELSE Subject(T, T[o].proof)

Proof(T, o) == {T[o].proof} \ {None}
Parents(T, o) == IF T[o].k = "dlg" THEN Proof(T, o) \cup T[o].after
                 ELSE Proof(T, o) \cup {T[o].revoke}

RECURSIVE Closure(_, _)
Closure(T, S) ==
  LET N == S \cup UNION {Parents(T, o) : o \in {x \in S : IsMemOp(T, x)}}
  IN IF N = S THEN S ELSE Closure(T, N)

(* proper proof lineage, as a set *)
RECURSIVE Lineage(_, _)
Lineage(T, o) ==
  IF ~IsMemOp(T, o) \/ T[o].proof = None THEN {}
  ELSE {T[o].proof} \cup Lineage(T, T[o].proof)

----------------------------------------------------------------------------
(* The common order in which operations are replayed.                      *)
(* The implementation pops a topological order from the newest operation   *)
(* backwards; ReplayOrder is its reverse.                                  *)

ByRank(T, S) == SetToSortSeq(S, LAMBDA a, b : T[a].rank < T[b].rank)

(* causal edges <<child, parent>>: the child is popped first *)
CausalEdges(T, H) == {<<o, p>> \in H \X H : p \in Parents(T, o)}

RECURSIVE ReachFrom(_, _)
ReachFrom(E, S) ==
  LET N == S \cup {e[2] : e \in {x \in E : x[1] \in S}}
  IN IF N = S THEN S ELSE ReachFrom(E, N)

(* A delegation is replayed after every revocation of its proof, unless    *)
(* that revocation builds on the delegation itself.                        *)
RECURSIVE ExtraEdges(_, _)
ExtraEdges(E, pairs) ==
  IF pairs = <<>> THEN E
  ELSE LET d == Head(pairs)[1]  r == Head(pairs)[2]
       IN ExtraEdges(IF d \in ReachFrom(E, {r}) THEN E ELSE E \cup {<<d, r>>}, Tail(pairs))

ExtraPairs(T, H) ==
  LET D == {d \in H : IsDlg(T, d) /\ T[d].proof # None}
      P == {<<d, r>> \in D \X {r \in H : IsRev(T, r)} : T[r].revoke = T[d].proof}
  IN SetToSortSeq(P, LAMBDA a, b : T[a[1]].rank < T[b[1]].rank
                      \/ (a[1] = b[1] /\ T[a[2]].rank < T[b[2]].rank))

AllEdges(T, H) == ExtraEdges(CausalEdges(T, H), ExtraPairs(T, H))

RECURSIVE Distance(_, _, _)
Distance(T, H, o) ==
  LET P == Parents(T, o) \cap H
  IN IF P = {} THEN 1 ELSE 1 + Max({Distance(T, H, p) : p \in P})

RECURSIVE PopAll(_, _, _, _)
PopAll(T, H, R, E) ==
  IF R = {} THEN <<>>
  ELSE
  LET F      == {o \in R : ~\E e \in E : e[2] = o /\ e[1] \in R}
      Others == {o \in F : IsDlg(T, o)}
      Revs   == SetToSortSeq(F \ Others,
                  LAMBDA a, b : LET da == Distance(T, H, a) db == Distance(T, H, b)
                                IN da < db \/ (da = db /\ T[a].rank < T[b].rank))
      First  == IF Revs = <<>> THEN {} ELSE {Revs[1]}
      Chain  == {<<Revs[i+1], Revs[i]>> : i \in 2..(Len(Revs) - 1)}
      Out    == ByRank(T, Others) \o (IF Revs = <<>> THEN <<>> ELSE <<Revs[1]>>)
  IN IF F = {} THEN <<>>
     ELSE Out \o PopAll(T, H, R \ (Others \cup First), E \cup Chain)

ReplayOrder(T, H) == Reverse(PopAll(T, H, H, AllEdges(T, H)))

----------------------------------------------------------------------------
(* Replay.  State: list (delegations in play, in order of application),    *)
(* revoked, active (revocations in effect), dep (pairs <<on, d>>).         *)

R0 == [list |-> <<>>, revoked |-> {}, active |-> {}, dep |-> {}]

InPlay(st) == {st.list[i] : i \in 1..Len(st.list)}
Holds(T, st, who) == SelectSeq(st.list, LAMBDA d : T[d].delegate = who)

RECURSIVE Cascade(_, _, _)
(* the revoked delegation, and whatever in play stands on it *)
Cascade(st, todo, done) ==
  IF todo = {} THEN done
  ELSE LET n == {e[2] : e \in {x \in st.dep : x[1] \in todo}}
           nd == done \cup todo
       IN Cascade(st, (n \cap InPlay(st)) \ nd, nd \cup n)

Apply(T, g, st, o) ==
  IF IsDlg(T, o) THEN
    LET p     == T[o].proof
        alive == p = None \/ (p \notin st.revoked /\ p \in InPlay(st))
        alts  == IF p = None THEN <<>>
                 ELSE SelectSeq(Holds(T, st, T[p].delegate),
                                LAMBDA a : a # p /\ T[a].can >= T[p].can)
        dep1  == IF p = None THEN st.dep ELSE st.dep \cup {<<p, o>>}
        ok    == IF p = None THEN T[o].issuer = g ELSE alive \/ alts # <<>>
        dep2  == IF ok /\ ~alive THEN dep1 \cup {<<alts[1], o>>} ELSE dep1
    IN IF ok /\ o \notin st.revoked
       THEN [st EXCEPT !.dep = dep2, !.list = Append(@, o)]
       ELSE [st EXCEPT !.dep = dep2]
  ELSE
    LET p     == T[o].proof
        alive == p = None \/ (p \notin st.revoked /\ p \in InPlay(st))
        auth  == IF p = None THEN None
                 ELSE IF T[p].issuer = T[o].issuer THEN T[o].issuer ELSE T[p].delegate
        alt   == p # None /\ (auth = g \/ \E i \in 1..Len(st.list) :
                                T[st.list[i]].delegate = auth /\ T[st.list[i]].can >= T[p].can)
        ok    == IF p = None THEN T[o].issuer = g ELSE alive \/ alt
        gone  == Cascade(st, {T[o].revoke}, {})
    IN IF ok
       THEN [st EXCEPT !.active = @ \cup {o}, !.revoked = @ \cup gone,
                       !.list = SelectSeq(@, LAMBDA d : d \notin gone)]
       ELSE st

RECURSIVE Fold(_, _, _, _)
Fold(T, g, st, seq) == IF seq = <<>> THEN st ELSE Fold(T, g, Apply(T, g, st, Head(seq)), Tail(seq))

(* the operations of g among H, with everything they build on *)
OpsOf(T, H, g) == {o \in H : IsMemOp(T, o) /\ Subject(T, o) = g}

Replay(T, H, g) == LET G == OpsOf(T, H, g) IN Fold(T, g, R0, ReplayOrder(T, G))

----------------------------------------------------------------------------
(* What a peer reports, derived from a replayed state. *)

MembersOf(T, st) ==       \* member -> set of delegations in effect
  [m \in {T[d].delegate : d \in InPlay(st)} |-> {d \in InPlay(st) : T[d].delegate = m}]

CapsOf(T, M) == [m \in DOMAIN M |-> Max({T[d].can : d \in M[m]})]

RevokedOf(T, st) ==
  LET ds == {T[r].revoke : r \in st.active}
      ms == {T[d].delegate : d \in ds} \ {T[d].delegate : d \in InPlay(st)}
  IN [m \in ms |-> Max({T[d].can : d \in {x \in ds : T[x].delegate = m}})]

(* Best path: C is group -> (member -> access); at[x] is the best access    *)
(* to x found so far.  Least fixpoint over the graph, never through Avoid.  *)
RECURSIVE BestPath(_, _, _)
BestPath(C, Avoid, at) ==
  LET step == {<<m, Min2(at[x], C[x][m])>> :
                 <<x, m>> \in {xm \in (DOMAIN at \cap DOMAIN C) \X UNION {DOMAIN C[g] : g \in DOMAIN C} :
                                  xm[2] \in DOMAIN C[xm[1]] /\ xm[2] \notin Avoid}}
      new  == [m \in DOMAIN at \cup {s[1] : s \in step} |->
                 Max({s[2] : s \in {y \in step : y[1] = m}} \cup (IF m \in DOMAIN at THEN {at[m]} ELSE {}))]
  IN IF new = at THEN at ELSE BestPath(C, Avoid, new)

TransFrom(C, g, Avoid) ==
  IF g \notin DOMAIN C \/ g \in Avoid THEN [x \in {} |-> 0]
  ELSE BestPath(C, Avoid \cup {g},
                [m \in DOMAIN C[g] \ (Avoid \cup {g}) |-> C[g][m]])
Trans(C, g) == TransFrom(C, g, {})

HasTrans(C, g, Avoid, who, lvl) ==
  LET t == TransFrom(C, g, Avoid) IN who \in DOMAIN t /\ t[who] >= lvl

----------------------------------------------------------------------------
(* Authority: may an operation be accepted at all?                         *)
(* C gives the receiving peer's current view of all groups.                *)

(* every link of the chain from o down to its root *)
RECURSIVE Links(_, _)
Links(T, o) == IF ~IsMemOp(T, o) \/ T[o].proof = None THEN {}
               ELSE {<<o, T[o].proof>>} \cup Links(T, T[o].proof)

LinkDirect(T, l) == T[l[1]].issuer = T[l[2]].delegate
LinkOK(T, C, g, l, lvl) ==
  LinkDirect(T, l) \/ HasTrans(C, T[l[2]].delegate, {g}, T[l[1]].issuer, lvl)

DlgOK(T, C, o) ==
  LET g == Subject(T, o) IN
  /\ T[o].proof = None => T[o].issuer = g
  /\ \A l \in Links(T, o) : T[o].can <= T[l[2]].can /\ LinkOK(T, C, g, l, T[o].can)

RevDirect(T, o) ==
  LET p == T[o].proof IN
  /\ T[o].revoke = p \/ p \in Lineage(T, T[o].revoke)
  /\ T[p].issuer = T[o].issuer \/ T[p].delegate = T[o].issuer

RevOK(T, C, o) ==
  LET g == Subject(T, o)  p == T[o].proof  lvl == T[T[o].revoke].can IN
  IF p = None THEN T[o].issuer = g
  ELSE /\ Subject(T, p) = g
       /\ RevDirect(T, o)
          \/ (lvl <= T[p].can /\ HasTrans(C, T[p].delegate, {g}, T[o].issuer, lvl))
       /\ \A l \in Links(T, p) : T[p].can <= T[l[2]].can /\ LinkOK(T, C, g, l, T[p].can)

OpOK(T, C, o) == IF IsDlg(T, o) THEN DlgOK(T, C, o) ELSE RevOK(T, C, o)

(* Does acceptance depend on the receiver's view of other groups? *)
Nested(T, o) ==
  IF IsDlg(T, o) THEN \E l \in Links(T, o) : ~LinkDirect(T, l)
  ELSE T[o].proof # None /\ (~RevDirect(T, o) \/ \E l \in Links(T, T[o].proof) : ~LinkDirect(T, l))

----------------------------------------------------------------------------
(* Declarative statements (used as invariants and as trace conjuncts).     *)

(* P02: a delegation in effect has an unbroken chain of held delegations   *)
(* to the group key; AnyC over-approximates what groups ever contained.    *)
Chained(T, H, AnyC, g, d) ==
  /\ Lineage(T, d) \subseteq H
  /\ Subject(T, d) = g
  /\ \A l \in Links(T, d) : T[d].can <= T[l[2]].can /\ LinkOK(T, AnyC, g, l, T[d].can)

(* every group's membership if nothing had ever been revoked *)
EverCaps(T, H) ==
  LET D == {o \in H : IsDlg(T, o)}
      G == {Subject(T, d) : d \in D}
  IN [g \in G |-> LET Dg == {d \in D : Subject(T, d) = g}
                  IN [m \in {T[d].delegate : d \in Dg} |-> Max({T[d].can : d \in {x \in Dg : T[x].delegate = m}})]]

(* P04: nothing revoked by an effective revocation stays in effect, and    *)
(* nothing untouched by revocations is lost.                               *)
NoRevokedInEffect(T, st) == \A r \in st.active : T[r].revoke \notin InPlay(st)
Untouched(T, H, g, d) ==
  ~\E r \in OpsOf(T, H, g) : IsRev(T, r) /\ T[r].revoke \in ({d} \cup Lineage(T, d))
=============================================================================
