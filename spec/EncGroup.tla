------------------------------- MODULE EncGroup -------------------------------
(***************************************************************************)
(* The encryption group of a document: a replicated set of individuals     *)
(* driven by operations                                                    *)
(*    cadd  who is added with a prekey                                     *)
(*    crem  who is removed                                                 *)
(*    cupd  somebody rotates the group key                                 *)
(* each naming its predecessors.  Operations of one individual that are    *)
(* causally ordered decide by the last one; when an addition and a removal *)
(* of the same individual are concurrent either outcome is allowed here    *)
(* (but all replicas must agree, see the monitors).                        *)
(***************************************************************************)
EXTENDS Prekeys

CgOps == {"cadd", "crem", "cupd"}
IsCg(T, o) == o \in DOMAIN T /\ T[o].k \in CgOps
CgOf(T, H, d) == {o \in H : IsCg(T, o) /\ T[o].doc = d}

RECURSIVE CgDown(_, _)
CgDown(T, S) ==
  LET N == S \cup UNION {T[o].preds : o \in {x \in S : IsCg(T, x)}}
  IN IF N = S THEN S ELSE CgDown(T, N)
CgPast(T, o) == CgDown(T, T[o].preds)

(* Past : operation -> its causal past (CgPast, tabulated) *)
Structural(T, S, x) == {o \in S : T[o].k \in {"cadd", "crem"} /\ T[o].who = x}
Latest(T, Past, S, x) ==
  LET O == Structural(T, S, x) IN {o \in O : ~\E q \in O : o \in Past[q]}
Named(T, S) == {T[o].who : o \in {q \in S : T[q].k = "cadd"}}

(* certainly / possibly a member, given the operations S *)
SureMembers(T, Past, S) ==
  {x \in Named(T, S) : \A o \in Latest(T, Past, S, x) : T[o].k = "cadd"}
MayMembers(T, Past, S) ==
  {x \in Named(T, S) : \E o \in Latest(T, Past, S, x) : T[o].k = "cadd"}

Heads(Past, S) == {o \in S : ~\E q \in S : o \in Past[q]}

(* the group has a key of its own once somebody has updated it with all    *)
(* operations so far taken into account; concurrent additions leave it     *)
(* without one until a later addition has seen them all (every encryption  *)
(* updates the group until then)                                           *)
AddHeads(T, Past, S) ==
  LET A == {o \in S : T[o].k = "cadd"} IN {o \in A : ~\E q \in A : o \in Past[q]}
Keyed(T, Past, S) ==
  LET h == Heads(Past, S) IN Cardinality(h) = 1 /\ (\A o \in h : T[o].k = "cupd")
                             /\ Cardinality(AddHeads(T, Past, S)) < 2
=============================================================================
