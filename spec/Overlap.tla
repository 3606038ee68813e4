------------------------------- MODULE Overlap -------------------------------
(***************************************************************************)
(* Calls on one peer that run at the same time.  A call takes and frees    *)
(* the peer's locks step by step and may be overtaken at every lock:       *)
(*   "groups", "docs"  the peer's maps      "pend"  the waiting events     *)
(*   "active"          the peer's own keys  a group's or document's name   *)
(* Two groups may contain each other.                                      *)
(*                                                                         *)
(* Ingestion takes a snapshot of the waiting events, tries events until    *)
(* none of the rest applies, and puts the rest back.  An event creates the *)
(* group it is about when it is the first of it.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Events, Needs, About, Deliveries, Objects, Inside
(* Needs : event -> events that must be there before it                    *)
(* About : event -> group        Deliveries : the sets delivered by calls  *)
(* Objects : groups there from the start   Inside : group -> groups in it  *)

VARIABLES held,   \* group -> events applied to it
          pend, owner, call, pc, todo, stuck, snap, moved, made
vars == <<held, pend, owner, call, pc, todo, stuck, snap, moved, made>>

Locks == {"groups", "docs", "pend", "active"} \cup Objects \cup {About[e] : e \in Events}
Free == "free"
All == UNION {held[g] : g \in DOMAIN held}
Calls == [kind : {"dlv"}, ev : Deliveries] \cup [kind : {"walk", "invite", "list", "add"}, ev : {{}}]

Init == /\ held = [g \in Objects |-> {}]
        /\ pend = {}
        /\ owner = [l \in Locks |-> Free]
        /\ call \in [Threads -> Calls]
        /\ pc = [t \in Threads |-> <<"start", "">>]
        /\ todo = [t \in Threads |-> {}]
        /\ stuck = [t \in Threads |-> {}]
        /\ snap = [t \in Threads |-> {}]
        /\ moved = [t \in Threads |-> FALSE]
        /\ made = 0

Take(t, l) == owner[l] = Free /\ owner' = [owner EXCEPT ![l] = t]
Drop(ls) == owner' = [l \in Locks |-> IF l \in ls THEN Free ELSE owner[l]]
Go2(t, s, x) == pc' = [pc EXCEPT ![t] = <<s, x>>]
Go(t, s) == Go2(t, s, "")

(* ingestion *)
Snapshot(t) == /\ pc[t][1] = "start" /\ call[t].kind = "dlv" /\ owner["pend"] = Free
               /\ snap' = [snap EXCEPT ![t] = pend]
               /\ todo' = [todo EXCEPT ![t] = pend \cup call[t].ev]
               /\ Go(t, "next") /\ UNCHANGED <<held, pend, owner, call, stuck, moved, made>>
NextEvent(t) == /\ pc[t][1] = "next" /\ todo[t] # {}
                /\ \E e \in todo[t] :
                     /\ todo' = [todo EXCEPT ![t] = @ \ {e}]
                     /\ IF Needs[e] \subseteq All
                        THEN Go2(t, "maps", e) /\ UNCHANGED stuck
                        ELSE UNCHANGED pc /\ stuck' = [stuck EXCEPT ![t] = @ \cup {e}]
                /\ UNCHANGED <<held, pend, owner, call, snap, moved, made>>
(* find the group or create it: the maps stay locked meanwhile *)
TakeGroups(t) == /\ pc[t][1] = "maps" /\ Take(t, "groups") /\ Go2(t, "maps2", pc[t][2])
                 /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
TakeDocs(t) == /\ pc[t][1] = "maps2" /\ Take(t, "docs") /\ Go2(t, "find", pc[t][2])
               /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
FindOrCreate(t) ==
  /\ pc[t][1] = "find"
  /\ LET e == pc[t][2]  g == About[e] IN
     /\ IF g \in DOMAIN held
        THEN /\ owner[g] = Free
             /\ held' = [held EXCEPT ![g] = @ \cup {e}] /\ UNCHANGED made
        ELSE /\ held' = [h \in DOMAIN held \cup {g} |-> IF h = g THEN {e} ELSE held[h]] /\ made' = made + 1
     /\ Drop({"groups", "docs"})
     /\ moved' = [moved EXCEPT ![t] = TRUE]
     /\ Go(t, "next")
  /\ UNCHANGED <<pend, call, todo, stuck, snap>>
Again(t) == /\ pc[t][1] = "next" /\ todo[t] = {} /\ stuck[t] # {} /\ moved[t]
            /\ todo' = [todo EXCEPT ![t] = stuck[t]] /\ stuck' = [stuck EXCEPT ![t] = {}]
            /\ moved' = [moved EXCEPT ![t] = FALSE]
            /\ UNCHANGED <<held, pend, owner, call, pc, snap, made>>
PutBack(t) == /\ pc[t][1] = "next" /\ todo[t] = {} /\ (stuck[t] = {} \/ ~moved[t]) /\ owner["pend"] = Free
              /\ pend' = (pend \ snap[t]) \cup stuck[t]
              /\ Go(t, "done") /\ UNCHANGED <<held, owner, call, todo, stuck, snap, moved, made>>

(* walking through everything reachable: one group at a time               *)
Walk(t) == /\ pc[t][1] = "start" /\ call[t].kind = "walk" /\ owner["docs"] = Free
           /\ todo' = [todo EXCEPT ![t] = Objects]
           /\ Go(t, "walking") /\ UNCHANGED <<held, pend, owner, call, stuck, snap, moved, made>>
WalkTake(t) == /\ pc[t][1] = "walking" /\ todo[t] # {}
               /\ \E g \in todo[t] : Take(t, g) /\ Go2(t, "in", g)
               /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
WalkOn(t) == /\ pc[t][1] = "in"
             /\ LET g == pc[t][2] IN
                /\ stuck' = [stuck EXCEPT ![t] = @ \cup {g}]
                /\ todo' = [todo EXCEPT ![t] = (@ \cup Inside[g]) \ (stuck[t] \cup {g})]
                /\ Drop({g})
             /\ Go(t, "walking") /\ UNCHANGED <<held, pend, call, snap, moved, made>>
WalkDone(t) == /\ pc[t][1] = "walking" /\ todo[t] = {} /\ Go(t, "done")
               /\ UNCHANGED <<held, pend, owner, call, todo, stuck, snap, moved, made>>

(* an invitation: own keys first (and freed), then the document            *)
Invite(t) == /\ pc[t][1] = "start" /\ call[t].kind = "invite" /\ Take(t, "active") /\ Go(t, "keys")
             /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
InviteDoc(t) == /\ pc[t][1] = "keys" /\ Drop({"active"}) /\ Go(t, "indoc")
                /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
InviteEnd(t) == /\ pc[t][1] = "indoc" /\ (\A g \in Objects : owner[g] = Free) /\ Go(t, "done")
                /\ UNCHANGED <<held, pend, owner, call, todo, stuck, snap, moved, made>>

(* a membership call: the group, then own keys (to sign)                   *)
Add(t) == /\ pc[t][1] = "start" /\ call[t].kind = "add"
          /\ \E g \in Objects : Take(t, g) /\ Go2(t, "sign", g)
          /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
AddSign(t) == /\ pc[t][1] = "sign" /\ Take(t, "active") /\ Go2(t, "signed", pc[t][2])
              /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
AddEnd(t) == /\ pc[t][1] = "signed" /\ Drop({"active", pc[t][2]}) /\ Go(t, "done")
             /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>

(* listing the maps: one lock after the other                              *)
List(t) == /\ pc[t][1] = "start" /\ call[t].kind = "list" /\ Take(t, "docs") /\ Go(t, "list2")
           /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
List2(t) == /\ pc[t][1] = "list2" /\ Drop({"docs"}) /\ Go(t, "list3")
            /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
List3(t) == /\ pc[t][1] = "list3" /\ Take(t, "groups") /\ Go(t, "list4")
            /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>
List4(t) == /\ pc[t][1] = "list4" /\ Drop({"groups"}) /\ Go(t, "done")
            /\ UNCHANGED <<held, pend, call, todo, stuck, snap, moved, made>>

AllDone == \A t \in Threads : pc[t][1] = "done"
Next == \/ \E t \in Threads :
             \/ Snapshot(t) \/ NextEvent(t) \/ Again(t) \/ PutBack(t)
             \/ TakeGroups(t) \/ TakeDocs(t) \/ FindOrCreate(t)
             \/ WalkOn(t) \/ AddSign(t) \/ AddEnd(t)
             \/ Walk(t) \/ WalkTake(t) \/ WalkDone(t)
             \/ Invite(t) \/ InviteDoc(t) \/ InviteEnd(t) \/ Add(t)
             \/ List(t) \/ List2(t) \/ List3(t) \/ List4(t)
        \/ AllDone /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Given == UNION {call[t].ev : t \in Threads}
(* P29: nothing that was delivered is lost, no group is created twice, and *)
(* (TLC's deadlock check) somebody can always go on                        *)
NothingLost == AllDone => Given \subseteq All \cup pend
NothingBoth == AllDone => \A e \in pend : e \in Given
OnceEach == made = Cardinality(DOMAIN held) - Cardinality(Objects)
OnlyReady == \A e \in All : Needs[e] \subseteq All
=============================================================================
