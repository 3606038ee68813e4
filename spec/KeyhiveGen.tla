----------------------------- MODULE KeyhiveGen -----------------------------
(***************************************************************************)
(* Random behaviours of the specification, written out as scenarios for    *)
(* the implementation (run with `tlc -simulate`, one worker, fixed seed).  *)
(* The state machine is followed while generating, so most calls are ones  *)
(* that mean something in the state they are made in.                      *)
(***************************************************************************)
EXTENDS Keyhive, Json, IOUtils

Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.DEPTH)

VARIABLES log,  \* the scenario so far
          ng, nd, nct, dead,
          mode  \* which opening the behaviour starts with
gvars == <<T, held, seen, log, ng, nd, nct, dead, mode>>

Pick(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
Rnd(S) == RandomElement(S)  \* an argument keeps TLC from evaluating draws once and for all
Rk(x) == RandomElement(1..1000000)

Bag(w) == LET RECURSIVE B(_)
              B(s) == IF s = <<>> THEN <<>> ELSE [i \in 1..Head(s)[2] |-> Head(s)[1]] \o B(Tail(s))
          IN B(w)

Weights ==
  CASE Profile = "flat" -> <<<<"group", 1>>, <<"add", 8>>, <<"rev", 7>>, <<"sync", 5>>, <<"dlv", 2>>>>
    [] Profile = "race" -> <<<<"add", 5>>, <<"rev", 8>>, <<"sync", 2>>, <<"dlv", 2>>, <<"dlvall", 1>>>>
    [] Profile = "nested" -> <<<<"group", 3>>, <<"add", 9>>, <<"rev", 5>>, <<"sync", 5>>, <<"dlv", 1>>, <<"dlvall", 1>>>>
    [] Profile = "docs" -> <<<<"group", 2>>, <<"doc", 2>>, <<"add", 8>>, <<"rev", 5>>, <<"sync", 6>>, <<"pcs", 2>>, <<"enc", 2>>, <<"dlvall", 1>>>>
    [] Profile = "enc" -> <<<<"group", 1>>, <<"doc", 1>>, <<"add", 6>>, <<"rev", 5>>, <<"sync", 6>>, <<"pcs", 2>>, <<"enc", 5>>, <<"dlvall", 3>>, <<"rot", 1>>, <<"exp", 1>>>>
    [] Profile = "order" -> <<<<"group", 1>>, <<"doc", 1>>, <<"add", 6>>, <<"rev", 5>>, <<"dlv", 8>>, <<"pcs", 1>>, <<"exp", 1>>, <<"rot", 1>>, <<"rcv", 4>>>>
    [] Profile = "store" -> <<<<"group", 2>>, <<"doc", 1>>, <<"add", 6>>, <<"rev", 5>>, <<"sync", 4>>, <<"dlv", 2>>, <<"enc", 2>>, <<"exp", 1>>, <<"rot", 1>>, <<"restore", 4>>, <<"ingarch", 3>>>>
    [] Profile = "fork" -> <<<<"group", 2>>, <<"doc", 1>>, <<"add", 6>>, <<"rev", 5>>, <<"sync", 4>>, <<"exp", 1>>, <<"enc", 1>>, <<"fork", 5>>, <<"merge", 5>>, <<"abort", 1>>>>
    [] Profile = "keys" -> <<<<"group", 1>>, <<"doc", 1>>, <<"add", 3>>, <<"rev", 1>>, <<"sync", 4>>, <<"dlv", 3>>, <<"exp", 4>>, <<"rot", 6>>, <<"rotloop", 1>>, <<"newcard", 1>>, <<"enc", 2>>, <<"dlvall", 1>>, <<"device", 2>>>>
    [] Profile = "forge" -> <<<<"group", 1>>, <<"doc", 1>>, <<"add", 6>>, <<"rev", 3>>, <<"sync", 5>>, <<"forge", 8>>, <<"dlv", 3>>, <<"rcv", 3>>>>
    [] Profile = "tamper" -> <<<<"group", 1>>, <<"doc", 1>>, <<"add", 5>>, <<"rev", 3>>, <<"sync", 3>>, <<"pcs", 1>>, <<"exp", 1>>, <<"rot", 1>>, <<"tamper", 8>>, <<"dlv", 2>>, <<"rcv", 3>>>>
    [] Profile = "causal" -> <<<<"doc", 1>>, <<"add", 3>>, <<"rev", 1>>, <<"sync", 4>>, <<"enc", 10>>, <<"pcs", 1>>, <<"dlvall", 3>>, <<"causal", 7>>>>
    [] Profile = "alter" -> <<<<"doc", 1>>, <<"add", 3>>, <<"rev", 2>>, <<"sync", 4>>, <<"enc", 7>>, <<"pcs", 2>>, <<"dlvall", 3>>, <<"tct", 5>>>>
    [] Profile = "current" -> <<<<"group", 3>>, <<"doc", 2>>, <<"add", 9>>, <<"rev", 5>>, <<"pcs", 1>>, <<"enc", 3>>>>
    [] Profile = "public" -> <<<<"group", 1>>, <<"doc", 1>>, <<"add", 6>>, <<"rev", 3>>, <<"sync", 4>>, <<"aspub", 4>>, <<"enc", 4>>, <<"pcs", 1>>, <<"dlvall", 1>>>>
    [] Profile = "cts" -> <<<<"cstore", 1>>>>
    [] Profile = "stat" -> <<<<"group", 2>>, <<"doc", 1>>, <<"add", 7>>, <<"rev", 4>>, <<"dlv", 7>>, <<"pcs", 1>>, <<"exp", 1>>, <<"rot", 1>>, <<"enc", 1>>, <<"query", 6>>, <<"restore", 1>>, <<"rcv", 1>>>>
    [] Profile = "conc" -> <<<<"group", 2>>, <<"doc", 1>>, <<"add", 6>>, <<"rev", 5>>, <<"sync", 3>>, <<"pcs", 1>>, <<"exp", 1>>, <<"par", 9>>, <<"enc", 1>>>>
    [] OTHER -> <<<<"group", 1>>, <<"add", 5>>, <<"rev", 3>>, <<"sync", 3>>>>
Acts == Bag(Weights)

CanRnd(x) == Pick({<<1, 3>>, <<2, 3>>, <<3, 3>>, <<4, 3>>, <<5, 2>>, <<6, 2>>, <<7, 1>>, <<8, 1>>, <<9, 0>>})[2]

GrpName(i) == "g" \o ToString(i)
DocName(i) == "d" \o ToString(i)

AllIds == Peers \cup Made
WithPublic == Profile \in {"docs", "enc", "public", "current"}

(* candidate calls are drawn a few times until one is allowed, so refused  *)
(* calls are exercised but do not dominate                                 *)
DrawAdd(p, V) ==
  LET Draw(i) == LET ons == {Pick(IF Chance(90) /\ DOMAIN V.M # {} THEN DOMAIN V.M ELSE Made)} IN
              UNION {{[on |-> on,
                       m |-> IF WithPublic /\ Chance(IF Profile = "public" THEN 35 ELSE 8) THEN "pub"
                             ELSE IF Chance(60) THEN Pick(Peers \ {IF Chance(90) THEN p ELSE "none"})
                             ELSE Pick(AllIds \ {IF Chance(95) THEN on ELSE "none"}),
                       can |-> CanRnd(i)]} : on \in ons}
      Best(S) == LET good == {x \in S : AddMay(T, V, p, x.on, x.m, x.can)}
                 IN IF good # {} /\ Chance(92) THEN Pick(good) ELSE Pick(S)
  IN Best(TLCEval(UNION {Draw(i) : i \in 1..4}))

DrawRev(p, V) ==
  LET Draw(i) == LET ons == {Pick(IF DOMAIN V.M # {} THEN DOMAIN V.M ELSE Made)} IN
              UNION {{[on |-> on,
                       m |-> IF on \in DOMAIN V.M /\ DOMAIN V.M[on] # {} /\ Chance(93)
                             THEN Pick(DOMAIN V.M[on]) ELSE Pick(AllIds)]} : on \in ons}
      Best(S) == LET good == {x \in S : RevTargets(V, x.on, x.m) # {} /\ RevMay(T, V, p, x.on, x.m)
                                         /\ (x.m # p \/ Cardinality(S) = 1)}
                 IN IF good # {} /\ Chance(92) THEN Pick(good) ELSE Pick(S)
  IN Best(TLCEval(UNION {Draw(i) : i \in 1..4}))

(* extend the table by a sequence of new records, all held by p *)
RECURSIVE NewOps(_, _)
NewOps(T0, recs) ==
  IF recs = <<>> THEN T0
  ELSE LET o == OpName(Cardinality(DOMAIN T0) + 1) IN
       NewOps([x \in DOMAIN T0 \cup {o} |-> IF x = o THEN Head(recs) ELSE T0[x]], Tail(recs))
Put(p, recs) ==
  \E T1 \in {TLCEval(NewOps(T, recs))} :
  /\ T' = T1
  /\ held' = [held EXCEPT ![p] = @ \cup (DOMAIN T1 \ DOMAIN T)]
  /\ UNCHANGED seen

\* calls on the original of a peer while its fork is open
Trunk == IF Profile = "fork" THEN {Chance(25)} ELSE {FALSE}
Log(r) == \E t \in Trunk : log' = Append(log, IF t THEN r @@ [trunk |-> TRUE] ELSE r)
Same3 == UNCHANGED <<T, held, seen>>

CreateAs(p, kind, co) ==
  \E g \in {IF kind = "group" THEN GrpName(ng + 1) ELSE DocName(nd + 1)} :
     /\ Put(p, <<Dlg(g, p, Admin, None, {}, Rk(p))>> \o
              (IF co = {} THEN <<>> ELSE <<Dlg(g, CHOOSE x \in co : TRUE, Admin, None, {}, Rk(p))>>))
     /\ Log([op |-> kind, p |-> p, co |-> co])
     /\ ng' = IF kind = "group" THEN ng + 1 ELSE ng
     /\ nd' = IF kind = "doc" THEN nd + 1 ELSE nd
     /\ UNCHANGED <<nct, dead>>
DoCreate(p, kind) == \E co \in {IF Chance(35) THEN {Pick(KnownTo(p) \ {p})} ELSE {}} : CreateAs(p, kind, co)

AddAs(p, V, c) ==
  LET G == IF c.m \in KnownTo(p) \cup {"pub"} THEN GoodAddChoices(T, V, p, c.on, c.m, c.can) ELSE {}
  IN /\ IF G = {} THEN Same3
        ELSE Put(p, <<Dlg(p, c.m, c.can, Pick(G), RevHeads(T, held[p], c.on), Rk(p))>>)
     /\ Log([op |-> "add", p |-> p, on |-> c.on, m |-> c.m, can |-> c.can])
     /\ UNCHANGED <<ng, nd, nct, dead>>
DoAdd(p) == \E V \in {View(p)} : \E c \in {DrawAdd(p, V)} : AddAs(p, V, c)

RevAs(p, V, c) ==
  LET tg == RevTargets(V, c.on, c.m)
      recs == LET s == SetToSeq(tg) IN
              [i \in 1..Len(s) |-> Rev(p, s[i], Pick({x \in RevProofs(T, V, p, c.on, c.m, s[i]) :
                                                     RevWorks(T, V, p, s[i], x)}), Rk(i))]
  IN /\ IF tg = {} \/ ~RevMay(T, V, p, c.on, c.m) THEN Same3 ELSE Put(p, TLCEval(recs))
     /\ \E keep \in {Chance(50)} :
          Log([op |-> "rev", p |-> p, on |-> c.on, m |-> c.m, retain |-> keep])
     /\ UNCHANGED <<ng, nd, nct, dead>>
DoRev(p) == \E V \in {View(p)} : \E c \in {DrawRev(p, V)} : RevAs(p, V, c)

GiveAll(p, S) ==
  LET H == Settle(held[p], seen[p] \cup S, p) IN
  /\ held' = [held EXCEPT ![p] = H]
  /\ seen' = [seen EXCEPT ![p] = (@ \cup S) \ H]
  /\ UNCHANGED T

(* what a sync offers: the groups p is or was a member of, and what is inside *)
Offer(p, f) ==
  LET E == EverCaps(T, held[f])
      past == {g \in DOMAIN E : p \in DOMAIN Trans(E, g)}
      ent == past \cup UNION {DOMAIN Trans(E, g) : g \in past}
  IN {o \in held[f] : Subject(T, o) \in ent}

SyncAs(p, f) ==
  /\ GiveAll(p, Offer(p, f))
  /\ Log([op |-> "sync", p |-> p, f |-> f])
  /\ UNCHANGED <<ng, nd, nct, dead>>
DoSync(p) ==
  \E f \in {LET news == {x \in Peers \ {p} : ~(Offer(p, x) \subseteq held[p])}
             IN IF news # {} /\ Chance(92) THEN Pick(news) ELSE Pick(Peers \ {p})} :
  SyncAs(p, f)

(* a random part of everything that exists; the model's own copy is        *)
(* approximate here (it need not agree with the real delivery)             *)
DoDlv(p) ==
  \E frac \in {Pick({10, 30, 60, 100})} : \E S \in {TLCEval({o \in DOMAIN T : Chance(frac)})} :
  /\ GiveAll(p, S)
  /\ Log([op |-> "dlv", p |-> p, frac |-> frac])
  /\ UNCHANGED <<ng, nd, nct, dead>>

DoDlvAll ==
  /\ held' = [p \in Peers |-> Settle(held[p], DOMAIN T, p)]
  /\ seen' = [p \in Peers |-> DOMAIN T \ held'[p]]
  /\ log' = log \o [i \in 1..Cardinality(Peers) |-> [op |-> "dlv", p |-> SetToSeq(Peers)[i], frac |-> 100]]
  /\ UNCHANGED <<T, ng, nd, nct, dead>>

Docs == {g \in Made : \E i \in 1..nd : g = DocName(i)}
MyDocs(p) == LET V == View(p) IN {d \in Docs \cap DOMAIN V.C : p \in DOMAIN Trans(V.C, d)}
SomeDoc(p) == IF MyDocs(p) # {} /\ Chance(92) THEN Pick(MyDocs(p)) ELSE Pick(Docs \cup {"d1"})

(* calls made at the same time *)
DoPar(p) ==
  \E V \in {View(p)} : \E frac \in {Pick({30, 60, 100})} : \E S \in {TLCEval({o \in DOMAIN T : Chance(frac)})} :
  \E k \in {Pick({"query", "add", "rev", "pcs", "exp", "rot", "dlv", "enc", "two", "group", "doc"})} :
  \E ca \in {DrawAdd(p, V)} : \E cr \in {IF DOMAIN V.M # {} THEN DrawRev(p, V) ELSE ca} :
  LET d == [op |-> "dlv", frac |-> frac]
      call(c) == CASE c = "query" -> [op |-> "query", m |-> Pick(Peers)]
                   [] c = "add" -> [op |-> "add", on |-> ca.on, m |-> ca.m, can |-> ca.can]
                   [] c = "rev" -> [op |-> "rev", on |-> cr.on, m |-> cr.m]
                   [] c = "pcs" -> [op |-> "pcs", on |-> SomeDoc(p)]
                   [] c = "rot" -> [op |-> "rot", n |-> Pick(0..20)]
                   [] c \in {"exp", "group", "doc"} -> [op |-> c]
                   [] c = "enc" -> [op |-> "enc", on |-> SomeDoc(p)]
                   [] OTHER -> [op |-> "dlv", frac |-> Pick({30, 60, 100})]
  IN /\ GiveAll(p, S)
     /\ \E calls \in {IF k = "two" THEN <<d, call("add"), call("rev")>>
                       ELSE IF Chance(25) THEN <<call(k), call("query"), call(Pick({"add", "rev"}))>>
                       ELSE <<d, call(k)>>} :
          Log([op |-> "par", p |-> p, calls |-> calls])
     /\ ng' = IF k = "group" THEN ng + 1 ELSE ng
     /\ nd' = IF k = "doc" THEN nd + 1 ELSE nd
     /\ nct' = IF k = "enc" THEN nct + 1 ELSE nct
     /\ UNCHANGED dead

Quiet(r) == Same3 /\ (\E x \in {r} : Log(x)) /\ UNCHANGED <<ng, nd, nct, dead>>

DoEnc(p) ==
  /\ Same3
  /\ \E r \in {[op |-> "enc", p |-> p, on |-> SomeDoc(p), preds |-> {i \in 1..nct : Chance(30)}]} : Log(r)
  /\ nct' = nct + 1
  /\ UNCHANGED <<ng, nd, dead>>

\* somebody nobody knows syncs as the public
DoAsPub(p) ==
  \E who \in {IF Chance(70) THEN "z" ELSE Pick(Peers \ {p})} :
  Quiet([op |-> "sync", p |-> who, f |-> p, as |-> "pub"])
\* causal decryption with part of the content at hand, some of it damaged
DoCausal(p) ==
  \E fr \in {Pick({0, 40, 70, 90, 100})}, bd \in {Pick({0, 0, 15, 50})} :
  Quiet([op |-> "causal", p |-> p, frac |-> fr, bad |-> bd])

(* forged operations: signed by x, who need not be entitled to any of it   *)
Sel(o) == [on |-> Subject(T, o), m |-> T[o].delegate, i |-> T[o].issuer]
(* x acts for a group of which they are a member, but with more access    *)
(* than they have got in it                                                *)
NearMisses(D) ==
  LET E == TLCEval(EverCaps(T, DOMAIN T))
      ok(c) == T[c].delegate \in DOMAIN E /\ T[c].can > 0
      low(c) == LET t == Trans(E, T[c].delegate) IN {<<x, t[x]>> : x \in {y \in Peers \cap DOMAIN t : t[y] < T[c].can}}
  IN TLCEval(UNION {{<<l[1], c, l[2]>> : l \in low(c)} : c \in {o \in D : ok(o)}})
DoForge(p) ==
  LET D == {o \in DOMAIN T : IsDlg(T, o)} IN
  IF D = {} THEN Quiet([op |-> "nop", p |-> p]) ELSE
  \E x \in {Pick(Peers \cup {"z"})} :
  \E c \in {LET own == {o \in D : T[o].delegate = x}
             IN IF own # {} /\ Chance(50) THEN Pick(own) ELSE Pick(D)} :
  \E pn \in {Chance(10)} : \E nm \in {IF Chance(35) THEN NearMisses(D) ELSE {}} :
     IF nm # {}
     THEN \E n \in {Pick(nm)} :
          Quiet(IF Chance(60)
                THEN [op |-> "forge", p |-> p, kind |-> "dlg", by |-> n[1], m |-> Pick(AllIds \cup {"z"}),
                      can |-> Pick((n[3] + 1)..3), proof |-> Sel(n[2]),
                      grp |-> Subject(T, n[2]), to |-> {q \in Peers : Chance(60)}]
                ELSE [op |-> "forge", p |-> p, kind |-> "rev", by |-> n[1],
                      revoke |-> Sel(Pick({o \in D : Subject(T, o) = Subject(T, n[2])})), proof |-> Sel(n[2]),
                      grp |-> Subject(T, n[2]), to |-> {q \in Peers : Chance(60)}])
     ELSE IF Chance(60)
     THEN Quiet([op |-> "forge", p |-> p, kind |-> "dlg", by |-> x, m |-> Pick(AllIds \cup {"z"}),
                 can |-> Pick(0..3), proof |-> IF pn THEN [on |-> "none"] ELSE Sel(c),
                 grp |-> Subject(T, c), to |-> {q \in Peers : Chance(60)}])
     ELSE Quiet([op |-> "forge", p |-> p, kind |-> "rev", by |-> x,
                 revoke |-> Sel(Pick(IF Chance(80) THEN {o \in D : Subject(T, o) = Subject(T, c)} ELSE D)),
                 proof |-> IF pn THEN [on |-> "none"] ELSE Sel(c),
                 grp |-> Subject(T, c), to |-> {q \in Peers : Chance(60)}])

DoStore(p) ==
  LET call(i) == [c |-> Pick({"ins", "raw", "rem", "all", "mark"}), n |-> Pick(1..12)]
      seq(n) == [i \in 1..n |-> IF i <= 3 \/ Chance(40) THEN [call(i) EXCEPT !.c = "ins"]
                               ELSE IF Chance(50) THEN [call(i) EXCEPT !.c = "rem"] ELSE call(i)]
  IN \E cs \in {TLCEval(seq(20))} : Quiet([op |-> "cstore", p |-> p, calls |-> cs])

DoTamper(p) ==
  Quiet([op |-> "tamper", p |-> p, how |-> Pick({"sig", "issuer", "payload", "resign"}),
         what |-> Pick({"dlg", "rev", "cgka", "pkadd", "pkrot", "any", "card"}), n |-> Pick(0..100)])

Step(p, a) ==
  CASE a = "group" -> DoCreate(p, "group")
    [] a = "doc" -> DoCreate(p, "doc")
    [] a = "add" -> DoAdd(p)
    [] a = "rev" -> DoRev(p)
    [] a = "sync" -> DoSync(p)
    [] a = "dlv" -> DoDlv(p)
    [] a = "dlvall" -> DoDlvAll
    [] a = "par" -> DoPar(p)
    [] a = "pcs" -> IF Docs = {} THEN DoCreate(p, "doc") ELSE Quiet([op |-> "pcs", p |-> p, on |-> SomeDoc(p)])
    [] a = "enc" -> IF Docs = {} THEN DoCreate(p, "doc") ELSE DoEnc(p)
    [] a = "rcv" -> Quiet([op |-> "rcv", p |-> p, n |-> Pick(0..1000)])
    [] a = "exp" -> Quiet([op |-> "exp", p |-> p, times |-> IF Chance(15) THEN 9 ELSE 1])
    [] a = "rotloop" -> Quiet([op |-> "rotloop", p |-> p, n |-> Pick(0..20)])
    [] a = "newcard" -> Quiet([op |-> "newcard", p |-> p, m |-> Pick(Peers \ {p})])
    [] a = "rot" -> Quiet([op |-> "rot", p |-> p, n |-> Pick(0..20)])
    [] a = "query" -> Quiet([op |-> "query", p |-> p])
    [] a = "restore" -> Quiet([op |-> "restore", p |-> p])
    [] a = "ingarch" -> Quiet([op |-> "ingarch", p |-> p, f |-> Pick(Peers \ {p})])
    [] a = "fork" -> Quiet([op |-> "fork", p |-> p])
    [] a = "merge" -> Quiet([op |-> "merge", p |-> p])
    [] a = "abort" -> Quiet([op |-> "abort", p |-> p])
    [] a = "causal" -> DoCausal(p)
    [] a = "tct" -> Quiet([op |-> "tct", p |-> p])
    [] a = "aspub" -> DoAsPub(p)
    [] a = "device" -> Quiet([op |-> "device", p |-> p])
    [] a = "forge" -> DoForge(p)
    [] a = "tamper" -> DoTamper(p)
    [] a = "cstore" -> DoStore(p)

Start ==
  CASE Profile \in {"docs", "enc", "keys", "causal", "alter", "current", "public"} -> "doc"
    [] Profile \in {"order", "store", "tamper", "fork", "forge", "conc", "stat"} -> "doc"
    [] OTHER -> "group"

(***************************************************************************)
(* Openings: situations that random calls seldom reach.                    *)
(***************************************************************************)
OC(k) == [a |-> k, p |-> "a"]
OA(p, on, m, can) == [a |-> "add", p |-> p, on |-> on, m |-> m, can |-> can]
OS(p, f) == [a |-> "sync", p |-> p, f |-> f]
OR(p, on, m) == [a |-> "rev", p |-> p, on |-> on, m |-> m]
\* a group inside a document
OpenDoc == <<OC("doc"), OC("group"), OA("a", "d1", "g1", Edit), OA("a", "g1", "b", Admin), OA("a", "g1", "c", Read), OS("b", "a"), OS("c", "a")>>
\* a chain of groups
OpenChain(top) == <<OC(IF top = "d1" THEN "doc" ELSE "group"), OC("group"), OC("group")>> \o
  (LET x == IF top = "d1" THEN "g1" ELSE "g2"  y == IF top = "d1" THEN "g2" ELSE "g3" IN
   <<OA("a", top, x, Admin), OA("a", x, y, Edit), OA("a", y, "b", Admin), OA("a", x, "c", Edit), OS("b", "a"), OS("c", "a")>>)
\* one group in two documents, some members also directly
OpenTwo == <<OC("doc"), OC("doc"), OC("group"), OA("a", "d1", "g1", Admin), OA("a", "d2", "g1", Read), OA("a", "g1", "b", Edit), OA("a", "d1", "c", Admin), OA("a", "d1", "b", Read), OS("b", "a"), OS("c", "a")>>
\* everybody an admin of one group
OpenFlat(k) == <<OC(k)>> \o LET g == IF k = "doc" THEN "d1" ELSE "g1" IN
  <<OA("a", g, "b", Admin), OS("b", "a"), OA("b", g, "c", Admin), OS("c", "b"), OA("c", g, "e", Edit), OS("a", "c"), OS("e", "c")>>
\* somebody revokes while being revoked and given less again
OpenShaky == OpenFlat("group") \o <<OA("c", "g1", "b", Read), OR("a", "g1", "b"), OR("b", "g1", "e")>>
\* two teams with the same access: one is revoked by the other while revoking somebody below it
OpenTeams == <<OC("group"), OC("group"), OC("group"), OA("a", "g2", "b", Admin), OA("a", "g3", "c", Admin),
  OA("a", "g1", "g2", Admin), OA("a", "g1", "g3", Admin), OS("b", "a"), OA("b", "g1", "e", Pick({Edit, Admin})), OS("c", "b"),
  OR("b", "g1", "g3"), OR("c", "g1", "e"), OS("a", "b"), OS("a", "c")>>
\* the public, directly and inside a group
OpenPub == IF mode = 1 THEN <<OC("doc"), OA("a", "d1", "b", Admin), OA("a", "d1", "pub", Read), OS("b", "a")>>
           ELSE <<OC("doc"), OC("group"), OA("a", "d1", "g1", Edit), OA("a", "g1", "b", Admin), OA("a", "g1", "pub", Read), OS("b", "a")>>
\* groups in each other
OpenCycle == <<OC("group"), OC("group"), OA("a", "g1", "g2", Admin), OA("a", "g2", "g1", Edit), OA("a", "g2", "b", Admin), OS("b", "a")>>
Opening ==
  CASE Profile \in {"flat", "race"} -> (CASE mode \in {1, 2} -> OpenFlat("group") [] mode = 3 /\ Profile = "race" -> OpenShaky [] mode = 4 /\ Profile = "race" -> OpenTeams [] OTHER -> <<>>)
    [] Profile = "nested" -> (CASE mode = 1 -> OpenChain("g1") [] mode = 2 -> OpenCycle [] mode = 3 -> OpenFlat("group") [] OTHER -> <<>>)
    [] Profile \in {"causal", "alter"} -> (CASE mode \in {1, 2, 3} -> OpenFlat("doc") [] mode = 4 -> OpenDoc [] OTHER -> <<>>)
    [] Profile = "public" -> (CASE mode \in {1, 2} -> OpenPub [] mode = 3 -> OpenDoc [] mode = 4 -> OpenFlat("doc") [] OTHER -> <<>>)
    [] Profile \in {"keys"} -> (CASE mode = 1 -> OpenFlat("doc") [] OTHER -> <<>>)
    [] OTHER -> (CASE mode \in {1, 2} -> OpenDoc [] mode = 3 -> OpenChain("d1") [] mode = 4 -> OpenTwo [] mode = 5 -> OpenFlat("doc") [] OTHER -> <<>>)
OpenStep(r) ==
  CASE r.a \in {"doc", "group"} -> CreateAs(r.p, r.a, {})
    [] r.a = "add" -> AddAs(r.p, View(r.p), r)
    [] r.a = "rev" -> RevAs(r.p, View(r.p), r)
    [] r.a = "sync" -> SyncAs(r.p, r.f)

GInit == /\ Init /\ log = <<>> /\ ng = 0 /\ nd = 0 /\ nct = 0 /\ dead = FALSE /\ mode \in 0..7
GNext ==
  /\ Len(log) < Depth
  /\ UNCHANGED mode
  /\ IF Len(log) < Len(Opening) THEN OpenStep(Opening[Len(log) + 1]) ELSE
     \E p \in {Pick(Peers)} :
     \* everybody always up to date: a delivery of everything before each call
     IF Profile = "current" THEN
       (IF log = <<>> \/ Last(log).op # "dlv"
        THEN /\ GiveAll(p, DOMAIN T) /\ Log([op |-> "dlv", p |-> p, frac |-> 100])
             /\ UNCHANGED <<ng, nd, nct, dead>>
        ELSE \E a \in {IF Made = {} THEN Start ELSE Acts[Pick(1..Len(Acts))]} : Step(Last(log).p, a))
     ELSE
     \E a0 \in {Acts[Pick(1..Len(Acts))]} :
     \E q \in {LET busy == {x \in Peers : held[x] # {}}
                   news == {x \in Peers : \E f \in Peers : ~(Offer(x, f) \subseteq held[x])}
               IN IF a0 = "sync" THEN (IF news # {} THEN Pick(news) ELSE p)
                  ELSE IF busy # {} /\ Chance(60) THEN Pick(busy) ELSE p} :
     \E a \in {IF a0 = "sync" /\ ~\E f \in Peers : ~(Offer(q, f) \subseteq held[q])
               THEN Acts[Pick(1..Len(Acts))] ELSE a0} :
       IF Made = {} THEN Step(p, Start)
       ELSE IF a \in {"add", "rev", "enc", "pcs"} /\ held[q] = {}
            THEN \E a2 \in {IF Chance(70) THEN "sync" ELSE a} : Step(q, a2)
       ELSE Step(q, a)
GSpec == GInit /\ [][GNext]_gvars

Emit == Len(log) < Depth \/ PrintT("SCENARIO " \o ToJson(log))
=============================================================================
