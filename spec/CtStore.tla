------------------------------ MODULE CtStore ------------------------------
(***************************************************************************)
(* The store of ciphertexts: a set.  A ciphertext is [ref, upd, size]: the *)
(* content it is of, the update whose key it is under, and how long it is. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* what each call does to the set of stored ciphertexts; C is the table    *)
CtAfter(C, S, call) ==
  CASE call.c \in {"ins", "raw"} -> S \cup {call.x}
    [] call.c = "rem" -> S \ {call.x}
    [] OTHER -> {x \in S : C[x].ref # call.r}         \* everything of one content: removed, or done with
CtGot(C, S, call) ==
  CASE call.c = "rem" -> call.x \in S
    [] call.c = "all" -> \E x \in S : C[x].ref = call.r
    [] OTHER -> TRUE
(* what looking up gives *)
CtByRef(C, S, r, got) ==
  LET H == {x \in S : C[x].ref = r}
  IN IF H = {} THEN got = "none" ELSE got \in H /\ \A x \in H : C[x].size <= C[got].size
CtByUpd(C, S, u) == {x \in S : C[x].upd = u}
=============================================================================
