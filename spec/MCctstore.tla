----------------------------- MODULE MCctstore -----------------------------
(* The two indexes the store keeps agree with the set at all times.        *)
EXTENDS CtStore
Refs == {"r0", "r1"}   Upds == {"u0", "u1"}
X == {ToString(i) : i \in 0..7}
C == [x \in X |-> LET i == CHOOSE j \in 0..7 : ToString(j) = x IN
        [ref |-> IF i % 2 = 0 THEN "r0" ELSE "r1", upd |-> IF (i \div 2) % 2 = 0 THEN "u0" ELSE "u1", size |-> i \div 4]]
VARIABLES S,    \* what was put in and not taken out
          store, byref, byupd    \* what the code keeps
vars == <<S, store, byref, byupd>>
Init == S = {} /\ store = {} /\ byref = [r \in Refs |-> {}] /\ byupd = [u \in Upds |-> {}]
Ins(x) == /\ S' = CtAfter(C, S, [c |-> "ins", x |-> x])
          /\ store' = store \cup {x}
          /\ IF x \in store THEN UNCHANGED <<byref, byupd>>
             ELSE /\ byref' = [byref EXCEPT ![C[x].ref] = @ \cup {x}]
                  /\ byupd' = [byupd EXCEPT ![C[x].upd] = @ \cup {C[x].ref}]
Rem(x) == /\ S' = CtAfter(C, S, [c |-> "rem", x |-> x])
          /\ IF x \notin store THEN UNCHANGED <<store, byref, byupd>>
             ELSE /\ store' = store \ {x}
                  /\ byref' = [byref EXCEPT ![C[x].ref] = @ \ {x}]
                  /\ byupd' = IF \E y \in byref[C[x].ref] \ {x} : C[y].upd = C[x].upd THEN byupd
                              ELSE [byupd EXCEPT ![C[x].upd] = @ \ {C[x].ref}]
All(r) == /\ S' = CtAfter(C, S, [c |-> "all", r |-> r])
          /\ store' = store \ byref[r]
          /\ byref' = [byref EXCEPT ![r] = {}]
          /\ UNCHANGED byupd
Next == (\E x \in X : Ins(x) \/ Rem(x)) \/ \E r \in Refs : All(r)
Spec == Init /\ [][Next]_vars

LookRef(r) == LET H == byref[r] IN
              IF H = {} \/ ~(H \subseteq store) THEN "none"
              ELSE CHOOSE x \in H : \A y \in H : C[y].size <= C[x].size
LookUpd(u) == {x \in store : C[x].ref \in byupd[u] /\ x \in byref[C[x].ref] /\ C[x].upd = u}
Right == /\ store = S
         /\ \A r \in Refs : IF LookRef(r) = "none" THEN \A x \in S : C[x].ref # r ELSE CtByRef(C, S, r, LookRef(r))
         /\ \A u \in Upds : LookUpd(u) = CtByUpd(C, S, u)
=============================================================================
