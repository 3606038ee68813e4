-------------------------------- MODULE Causal --------------------------------
(***************************************************************************)
(* Causal decryption.  Every piece of content carries the keys of its      *)
(* predecessors.  From an opened entry, with the ciphertexts `avail`       *)
(* intact and `corrupt` damaged in the store:                              *)
(***************************************************************************)
EXTENDS Membership

CPreds(CT, c) == ToSet(CT[c].preds)

RECURSIVE Opened(_, _, _)
Opened(CT, avail, S) ==
  LET N == S \cup (UNION {CPreds(CT, c) : c \in S} \cap avail)
  IN IF N = S THEN S ELSE Opened(CT, avail, N)

(* everything that must come back *)
Complete(CT, avail, entry) == Opened(CT, avail, {entry})
(* what is known of but not there, and what is there but damaged *)
Frontier(CT, avail, entry) == UNION {CPreds(CT, c) : c \in Complete(CT, avail, entry)} \ Complete(CT, avail, entry)
Missing(CT, avail, corrupt, entry) == Frontier(CT, avail, entry) \ (avail \cup corrupt)
Damaged(CT, avail, corrupt, entry) == Frontier(CT, avail, entry) \cap corrupt
=============================================================================
