-------------------------------- MODULE Prekeys --------------------------------
(***************************************************************************)
(* Prekeys of an individual.  An operation publishes a key ("pkadd") or    *)
(* replaces one ("pkrot": old -> new).  The current keys are the published *)
(* ones that no operation has rotated away: a function of the set of       *)
(* operations, whatever their order.                                       *)
(***************************************************************************)
EXTENDS Membership

IsPk(T, o) == o \in DOMAIN T /\ T[o].k \in {"pkadd", "pkrot"}
PkOf(T, H, x) == {o \in H : IsPk(T, o) /\ T[o].ok /\ T[o].issuer = x}
Published(T, P) == {T[o].new : o \in P}
RotatedAway(T, P) == {T[o].old : o \in {q \in P : T[q].k = "pkrot"}}
(* rotations in a circle leave the published keys, never none               *)
CurrentKeys(T, P) == LET c == Published(T, P) \ RotatedAway(T, P) IN IF c = {} THEN Published(T, P) ELSE c
=============================================================================
