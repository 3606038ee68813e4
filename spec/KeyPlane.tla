------------------------------ MODULE KeyPlane ------------------------------
(***************************************************************************)
(* The key plane of one document: peers publish and rotate prekeys, the    *)
(* members of the encryption group add and remove each other under the     *)
(* prekeys they know of, rotate the group key, and encrypt content that    *)
(* carries the keys of the content it builds on.  Operations arrive in any *)
(* order; one whose predecessors have not arrived waits.                   *)
(*                                                                         *)
(* T, held, seen : as in Keyhive                                           *)
(* ct   : the pieces of content: [by, past (operations), preds, epoch]     *)
(* know : peer -> group key epochs whose secret the peer holds             *)
(***************************************************************************)
EXTENDS EncGroup

CONSTANTS Peers, Founder, MaxCg, MaxPk, MaxCt

VARIABLES T, held, seen, ct, know
vars == <<T, held, seen, ct, know>>

Doc == "d"
KName(i) == "k" \o ToString(i)
NPk == Cardinality({o \in DOMAIN T : IsPk(T, o)})
NCg == Cardinality({o \in DOMAIN T : IsCg(T, o)})
Fresh == "o" \o ToString(Cardinality(DOMAIN T) + 1)
Extend(o, r) == [x \in DOMAIN T \cup {o} |-> IF x = o THEN r ELSE T[x]]
Past(TT) == [o \in {x \in DOMAIN TT : IsCg(TT, x)} |-> CgPast(TT, o)]
Cg(p) == CgOf(T, held[p], Doc)
Sure(p) == SureMembers(T, Past(T), Cg(p))
May(p) == MayMembers(T, Past(T), Cg(p))
KeysOf(p, x) == CurrentKeys(T, PkOf(T, held[p], x))
HeadsOf(p) == Heads(Past(T), Cg(p))
IsKeyed(p) == Cg(p) # {} /\ Keyed(T, Past(T), Cg(p))

PkRec(p, k, n, old) == [k |-> k, issuer |-> p, new |-> n, old |-> old, ok |-> TRUE]
CgRec(p, k, who, key) == [k |-> k, doc |-> Doc, issuer |-> p, who |-> who, key |-> key, preds |-> HeadsOf(p)]

(* who gets the secret of an update made with the operations S: the        *)
(* members as its issuer sees them                                         *)
Recipients(S) == MayMembers(T, Past(T), S)

Init ==
  /\ T = [o \in {"o" \o ToString(i) : i \in 1..(Cardinality(Peers) + 2)} |->
            IF o = "o" \o ToString(Cardinality(Peers) + 1)
            THEN [k |-> "cadd", doc |-> Doc, issuer |-> Founder, who |-> Founder, key |-> "k1", preds |-> {}]
            ELSE IF o = "o" \o ToString(Cardinality(Peers) + 2)
            THEN [k |-> "cupd", doc |-> Doc, issuer |-> Founder, who |-> Founder, key |-> "none", preds |-> {"o" \o ToString(Cardinality(Peers) + 1)}]
            ELSE LET i == CHOOSE n \in 1..Cardinality(Peers) : o = "o" \o ToString(n)
                 IN PkRec((<<Founder>> \o SetToSeq(Peers \ {Founder}))[i], "pkadd", KName(i), "none")]
  /\ held = [p \in Peers |-> {o \in DOMAIN T : IsPk(T, o)} \cup (IF p = Founder THEN {o \in DOMAIN T : IsCg(T, o)} ELSE {})]
  /\ seen = [p \in Peers |-> {}]
  /\ ct = <<>>
  /\ know = [p \in Peers |-> IF p = Founder THEN {"o" \o ToString(Cardinality(Peers) + 2)} ELSE {}]

Make(p, r) == /\ T' = Extend(Fresh, r)
              /\ held' = [held EXCEPT ![p] = @ \cup {Fresh}]

Publish(p) == /\ NPk < MaxPk /\ Make(p, PkRec(p, "pkadd", KName(NPk + 1), "none")) /\ UNCHANGED <<seen, ct, know>>
Rotate(p, k) == /\ NPk < MaxPk /\ k \in KeysOf(p, p)
                /\ Make(p, PkRec(p, "pkrot", KName(NPk + 1), k)) /\ UNCHANGED <<seen, ct, know>>
AddTo(p, x, k) == /\ NCg < MaxCg /\ p \in Sure(p) /\ x \notin May(p) /\ k \in KeysOf(p, x)
                  /\ Make(p, CgRec(p, "cadd", x, k)) /\ UNCHANGED <<seen, ct, know>>
RemoveFrom(p, x) == /\ NCg < MaxCg /\ p \in Sure(p) /\ x \in May(p) /\ Cardinality(May(p)) > 1
                /\ Make(p, CgRec(p, "crem", x, "none")) /\ UNCHANGED <<seen, ct, know>>
(* an update: everybody who is a member (as far as the issuer knows) will  *)
(* be able to derive the new secret once the update reaches them           *)
Update(p) == /\ NCg < MaxCg /\ p \in Sure(p)
             /\ Make(p, CgRec(p, "cupd", p, "none"))
             /\ know' = [know EXCEPT ![p] = @ \cup {Fresh}]
             /\ UNCHANGED <<seen, ct>>
(* encrypting: under the latest update if the group is keyed, otherwise    *)
(* after an update                                                         *)
Encrypt(p, preds) ==
  /\ Len(ct) < MaxCt /\ p \in Sure(p)
  /\ IF IsKeyed(p)
     THEN /\ \E u \in HeadsOf(p) \cap know[p] :
               ct' = Append(ct, [by |-> p, past |-> Cg(p), preds |-> preds, epoch |-> u])
          /\ UNCHANGED <<T, held, seen, know>>
     ELSE /\ NCg < MaxCg
          /\ Make(p, CgRec(p, "cupd", p, "none"))
          /\ know' = [know EXCEPT ![p] = @ \cup {Fresh}]
          /\ ct' = Append(ct, [by |-> p, past |-> Cg(p) \cup {Fresh}, preds |-> preds, epoch |-> Fresh])
          /\ UNCHANGED seen

Ready(H, o) == IF IsCg(T, o) THEN T[o].preds \subseteq H
               ELSE T[o].k = "pkrot" => \E q \in H : IsPk(T, q) /\ T[q].issuer = T[o].issuer /\ T[q].new = T[o].old
RECURSIVE Settle(_, _)
Settle(H, S) == LET A == {o \in S \ H : Ready(H, o)} IN IF A = {} THEN H ELSE Settle(H \cup A, S)
Receive(p, o) ==
  /\ o \notin held[p] \cup seen[p]
  /\ LET S == seen[p] \cup {o}  H == Settle(held[p], S) IN
     /\ held' = [held EXCEPT ![p] = H]
     /\ seen' = [seen EXCEPT ![p] = S \ H]
     /\ know' = [know EXCEPT ![p] = @ \cup {u \in H \ held[p] : IsCg(T, u) /\ T[u].k = "cupd" /\ p \in Recipients(CgPast(T, u))}]
  /\ UNCHANGED <<T, ct>>

(* only content one can read can be built upon *)
RECURSIVE Readable(_, _)
Readable(p, S) ==
  LET N == S \cup UNION {ct[i].preds : i \in S} IN IF N = S THEN S ELSE Readable(p, N)
Opens(p) == Readable(p, {i \in 1..Len(ct) : ct[i].epoch \in know[p]})

Next == \E p \in Peers :
  \/ Publish(p)
  \/ \E k \in KeysOf(p, p) : Rotate(p, k)
  \/ \E x \in Peers, k \in UNION {KeysOf(p, y) : y \in Peers} : AddTo(p, x, k)
  \/ \E x \in Peers : RemoveFrom(p, x)
  \/ Update(p)
  \/ \E preds \in SUBSET Opens(p) : Encrypt(p, preds)
  \/ \E o \in DOMAIN T : Receive(p, o)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* P21: somebody known has got a current prekey, never one they replaced   *)
AlwaysAKey == \A p, x \in Peers : PkOf(T, held[p], x) # {} =>
                 /\ KeysOf(p, x) # {}
                 /\ KeysOf(p, x) \cap RotatedAway(T, PkOf(T, held[p], x)) = {}
(* P08/P19: no operation is in place before the ones it builds on *)
NoGaps == \A p \in Peers : \A o \in held[p] : Ready(held[p], o)
(* P19: everybody's picture of the group is between the bounds, which      *)
(* coincide unless an addition and a removal were made independently       *)
Bounds == \A p \in Peers :
  /\ Sure(p) \subseteq May(p)
  /\ \A x \in May(p) \ Sure(p) : \E o, q \in Structural(T, Cg(p), x) :
       T[o].k # T[q].k /\ o \notin CgPast(T, q) /\ q \notin CgPast(T, o)
(* P17: who is surely a member holds the secret of the newest update made  *)
(* since they joined                                                       *)
MembersHoldKeys == \A p \in Peers : \A u \in held[p] :
  (IsCg(T, u) /\ T[u].k = "cupd" /\ p \in SureMembers(T, Past(T), CgPast(T, u))) => u \in know[p]
KeyedMeansKey == \A p \in Peers : (IsKeyed(p) /\ p \in Sure(p)) =>
  \A u \in HeadsOf(p) : u \in know[p] \/ p \notin SureMembers(T, Past(T), CgPast(T, u))
(* P18: the secret of an update is unknown to whoever was out of the group *)
(* by all the operations it was made with                                  *)
SecretsStayIn == \A p \in Peers : \A u \in know[p] : T[u].issuer = p \/ p \in MayMembers(T, Past(T), CgPast(T, u))
(* P17/P20: content is readable by the members it was encrypted to, and    *)
(* with it everything it builds on                                         *)
ContentReadable == \A p \in Peers : \A i \in 1..Len(ct) :
  (ct[i].epoch \in held[p] /\ p \in SureMembers(T, Past(T), CgPast(T, ct[i].epoch))) =>
     i \in Opens(p) /\ ct[i].preds \subseteq Opens(p)
(* P18: ... and by nobody who was never let in                             *)
NeverInNeverReads == \A p \in Peers :
  (~\E o \in DOMAIN T : IsCg(T, o) /\ T[o].k = "cadd" /\ T[o].who = p) => Opens(p) = {}
(* P24: an update is only ever used for content encrypted with it in sight *)
EpochInPast == \A i \in 1..Len(ct) : ct[i].epoch \in ct[i].past /\ T[ct[i].epoch].k = "cupd"
               /\ ct[i].by \in MayMembers(T, Past(T), ct[i].past)
=============================================================================
