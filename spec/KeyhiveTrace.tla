----------------------------- MODULE KeyhiveTrace -----------------------------
(***************************************************************************)
(* Checks executions recorded from the real implementation against the     *)
(* specification.  Every recorded step is one transition: the abstract     *)
(* state (each peer's last projected view) moves to the logged one, and    *)
(* the step is judged by the conjuncts below; the names of the conjuncts   *)
(* that do not hold are collected in `bad`.  A trace is a behaviour of the *)
(* specification iff `bad` stays empty.                                    *)
(***************************************************************************)
EXTENDS Calls, EncGroup, Causal, CtStore, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Raw)

NormOp(r) == IF r.k = "dlg" THEN [r EXCEPT !.after = ToSet(@)]
             ELSE IF r.k \in {"cadd", "crem", "cupd"} THEN [r EXCEPT !.preds = ToSet(@)]
             ELSE r
Tabs == TLCEval([i \in 1..N |-> TLCEval([o \in DOMAIN Raw[i].table |-> NormOp(Raw[i].table[o])])])
Ev(i, j) == Raw[i].events[j]
Len_(i) == Len(Raw[i].events)
Who(i, p) == Raw[i].who[p]         \* the identity behind a peer (forks share one)
Cts(i) == Raw[i].cts
IsInd(i, x) == x \in DOMAIN Raw[i].kinds /\ Raw[i].kinds[x] = "ind"

(* causal pasts of the encryption group operations *)
Pasts == TLCEval([i \in 1..N |-> TLCEval([o \in {x \in DOMAIN Tabs[i] : IsCg(Tabs[i], x)} |-> CgPast(Tabs[i], o)])])

VARIABLES ti,   \* which trace
          l,    \* next event
          cur,  \* peer -> index of the event carrying its latest view (0 = none)
          full, \* every change so far was made with knowledge of all earlier ones
          made, \* all operations made so far
          bad   \* names of violated conjuncts of the last step
vars == <<ti, l, cur, full, made, bad>>

(* the latest view of q; the one of a fork just made is logged with the forking *)
Cur(i, q) == LET x == Ev(i, cur[q]) IN IF x.p = q THEN x.view ELSE x.fview
Fork(p) == p \o "+"

----------------------------------------------------------------------------
(* projections of a logged view *)
Held(v) == ToSet(v.held)
Pend(v) == ToSet(v.pend)
MemSets(v) == [g \in DOMAIN v.mem |-> [m \in DOMAIN v.mem[g] |-> ToSet(v.mem[g][m])]]
AsView(v) == [held |-> Held(v), M |-> MemSets(v), C |-> v.caps]
Knows(v) == DOMAIN v.mem \cup DOMAIN v.pkops
Same(u, v) == /\ u.mem = v.mem /\ u.caps = v.caps /\ u.trans = v.trans /\ u.revd = v.revd
              /\ u.held = v.held /\ u.pend = v.pend /\ u.pkops = v.pkops /\ u.cgka = v.cgka
              /\ u.prekeys = v.prekeys /\ u.kinds = v.kinds /\ u.reach = v.reach

Chk(c, tag) == IF c THEN {} ELSE {tag}

----------------------------------------------------------------------------
(* A view is what the specification says its operations mean. *)
InEffect(v, g) == UNION {ToSet(v.mem[g][m]) : m \in DOMAIN v.mem[g]}

GroupTags(T, v, ever, g) ==
  LET H  == Held(v)
      st == Replay(T, H, g)
      L  == InEffect(v, g)
      extra == L \ InPlay(st)
      missing == InPlay(st) \ L
      revs == {o \in OpsOf(T, H, g) : IsRev(T, o)}
      diff == extra # {} \/ missing # {}
  IN  Chk(extra \cap st.revoked = {}, "revoked_in_effect")
   \cup Chk(extra \ st.revoked = {}, "extra_member")
   \cup Chk({d \in missing : Untouched(T, H, g, d)} = {}, "lost_untouched")
   \cup Chk({d \in missing : ~Untouched(T, H, g, d)} = {}, "missing_member")
   \cup Chk(~(diff /\ Cardinality(revs) >= 2), "revs_resolved_differently")
   \cup Chk(\A d \in L : d \in H /\ IsDlg(T, d) /\ Chained(T, H, ever, g, d), "unchained")
   \cup Chk(diff \/ v.caps[g] = CapsOf(T, MembersOf(T, st)), "access_level")
   \cup Chk(diff \/ v.revd[g] = RevokedOf(T, st), "revoked_list")
   \cup Chk(\A m \in DOMAIN v.mem[g] : \A d \in ToSet(v.mem[g][m]) : IsDlg(T, d) => T[d].delegate = m, "extra_member")

HeadTags(T, v, g) ==
  Chk(Closure(T, ToSet(v.dheads[g]) \cup ToSet(v.rheads[g])) = OpsOf(T, Held(v), g), "heads")

TransTags(v, g) ==
  LET t == Trans(v.caps, g)  r == v.trans[g] IN
     Chk(DOMAIN r \subseteq DOMAIN t /\ \A m \in DOMAIN r \cap DOMAIN t : r[m] <= t[m], "trans_more")
  \cup Chk(DOMAIN t \subseteq DOMAIN r /\ \A m \in DOMAIN r \cap DOMAIN t : r[m] >= t[m], "trans_less")

ReachTags(v, p) ==  \* p: identity
  LET docs == {g \in DOMAIN v.kinds : v.kinds[g] = "doc" /\ p \in DOMAIN Trans(v.caps, g)}
  IN Chk(DOMAIN v.reach = docs /\ \A d \in docs \cap DOMAIN v.reach : v.reach[d] = Trans(v.caps, d)[p], "reach")

(* current prekeys are what the operations say, and choices come from them *)
PrekeyTags(T, v) ==
  UNION {LET P == ToSet(v.pkops[x]) IN
           Chk(P \subseteq PkOf(T, DOMAIN T, x), "foreign_prekey_op")
      \cup Chk(ToSet(v.prekeys[x]) = CurrentKeys(T, P), "prekey_set")
      \cup Chk(ToSet(v.picks[x]) \subseteq ToSet(v.prekeys[x]), "prekey_pick")
         : x \in DOMAIN v.pkops \ {"pub"}}

(* the encryption group of d is what its operations say *)
Founder(T, d) == {T[o].issuer : o \in {x \in DOMAIN T : IsCg(T, x) /\ T[x].k = "cadd" /\ T[x].who = d}}
CgTags(i, T, v, d, p) ==
  LET c == v.cgka[d]  S == ToSet(c.ops)  P == Pasts[i]  M == ToSet(c.members)
      sure == SureMembers(T, P, S)  may == MayMembers(T, P, S)
      open == p \in may \/ "pub" \in may \/ p \in Founder(T, d)
  IN IF c.size = -1 THEN {}
     ELSE IF ~(S \subseteq DOMAIN P) THEN {"cgka_unknown_op"}
     ELSE IF c.size = -2 THEN {"cgka_broken"}
     ELSE Chk(sure \subseteq M, "cgka_member_missing") \cup Chk(M \subseteq may, "cgka_member_extra")
     \cup Chk(c.size = Cardinality(M), "cgka_size")
     \cup Chk(\A o \in S : T[o].preds \subseteq S, "cgka_gap")
     \cup Chk((p \in sure /\ Keyed(T, P, S)) => c.pcs \notin {"nokey", "nopcs"}, "cgka_nokey")
     \cup Chk(~open => c.pcs \in {"nokey", "nopcs"}, "cgka_leak")

ViewTags(i, T, u, v, p) ==  \* p: identity
  LET H == Held(v)  Hu == IF u = <<>> THEN {} ELSE Held(u)
      known(g) == u # <<>> /\ g \in DOMAIN u.mem
      same(g) == known(g) /\ OpsOf(T, H, g) = OpsOf(T, Hu, g)
      ever == EverCaps(T, H)
      capsSame == u # <<>> /\ u.caps = v.caps
  IN  Chk(Hu \subseteq H, "forgot")
   \cup Chk(\A o \in H : o \in DOMAIN T /\ T[o].ok, "invalid_applied")
   \cup Chk(GroupsOf(T, H) = DOMAIN v.mem, "group_set")
   \cup UNION {IF same(g)
               THEN Chk(u.mem[g] = v.mem[g] /\ u.caps[g] = v.caps[g] /\ u.revd[g] = v.revd[g], "changed_without_ops")
               ELSE GroupTags(T, v, ever, g) \cup HeadTags(T, v, g) : g \in DOMAIN v.mem}
   \cup (IF capsSame
         THEN Chk(u.trans = v.trans, "changed_without_ops")
         ELSE UNION {TransTags(v, g) : g \in DOMAIN v.mem})
   \cup ReachTags(v, p)
   \cup PrekeyTags(T, v) \cup UNION {CgTags(i, T, v, d, p) : d \in {x \in DOMAIN v.cgka : u = <<>> \/ x \notin DOMAIN u.cgka \/ u.cgka[x] # v.cgka[x]}}
   \cup Chk(u = <<>> \/ ToSet(u.sks) \subseteq ToSet(v.sks), "secret_lost")

(* peers that hold the same operations of a group see the same group *)
ConvTags(i, T, v, p) ==
  UNION {LET w == Cur(i, q)
             G == DOMAIN v.mem \cap DOMAIN w.mem
             agree(g) == OpsOf(T, Held(v), g) = OpsOf(T, Held(w), g)
         IN  Chk(\A g \in G : agree(g) => /\ MemSets(v)[g] = MemSets(w)[g] /\ v.caps[g] = w.caps[g]
                                          /\ v.revd[g] = w.revd[g], "diverged")
          \cup Chk((DOMAIN v.mem = DOMAIN w.mem /\ \A g \in G : agree(g)) => v.trans = w.trans, "diverged")
          \cup UNION {LET c == v.cgka[d]  b == w.cgka[d] IN
                      IF c.ops # b.ops \/ c.size = -1 \/ b.size = -1 THEN {}
                      ELSE Chk(c.members = b.members /\ c.size = b.size, "cgka_diverged")
                      \cup Chk("nokey" \in {c.pcs, b.pcs} \/ c.pcs = b.pcs, "cgka_keys_differ")
                      : d \in DOMAIN v.cgka \cap DOMAIN w.cgka}
          \cup UNION {IF v.pkops[x] # w.pkops[x] THEN {} ELSE Chk(v.prekeys[x] = w.prekeys[x], "prekeys_differ")
                      : x \in DOMAIN v.pkops \cap DOMAIN w.pkops}
         : q \in {x \in DOMAIN cur : x # p /\ cur[x] > 0}}

----------------------------------------------------------------------------
(* Calls *)
MemHeld(T, v) == {o \in Held(v) : IsMemOp(T, o)}

DocKnown(v, d) == d \in DOMAIN v.kinds /\ v.kinds[d] = "doc"
CgReady(v, d) == d \in DOMAIN v.cgka /\ v.cgka[d].size >= 0

AddTags(i, T, e, u, v) ==
  LET V == AsView(u)  p == Who(i, e.p)  on == e.on  m == e.m  can == e.can
      known == m \in Knows(u) /\ on \in DOMAIN u.mem
      cgok == ~(DocKnown(u, on) /\ can >= Read) \/ CgReady(u, on)
      new == {o \in ToSet(e.created) : IsMemOp(T, o)}
  IN IF ~known THEN Chk(~e.ok, "unknown_accepted")
     ELSE IF e.ok THEN
            Chk(AddMay(T, V, p, on, m, can), "escalated")
       \cup Chk(Cardinality(new) = 1 /\ \A o \in new :
                  /\ IsDlg(T, o) /\ T[o].issuer = p /\ T[o].delegate = m /\ T[o].can = can
                  /\ T[o].proof \in GoodAddChoices(T, V, p, on, m, can)
                  /\ ToSet(u.rheads[on]) \subseteq T[o].after
                  /\ T[o].after \subseteq ToSet(u.rheads[on]) \cup {r \in Held(u) : IsRev(T, r) /\ Subject(T, r) = on /\ T[T[r].revoke].delegate = m},
                  "bad_delegation")
       \cup Chk(MemHeld(T, v) = MemHeld(T, u) \cup new, "side_effect")
       \* a delegation whose proof is itself only standing in for a revoked one may
       \* be undone by the replay order; none is made that way without need
       \cup Chk(CapOf(v.caps, on, m) >= can
                \/ \E o \in new : T[o].proof # None /\ ~Untouched(T, Held(u), on, T[o].proof), "add_no_effect")
       \cup Chk(\A o \in new : (T[o].proof # None /\ T[T[o].proof].delegate = p) =>
                  LET D == {d \in V.M[on][p] : T[d].can >= T[T[o].proof].can}
                  IN (\E d \in D : Untouched(T, Held(u), on, d)) =>
                       ~\E r \in Replay(T, Held(u), on).active : T[r].revoke \in Lineage(T, T[o].proof),
                "shaky_proof")
     ELSE Chk(~(cgok /\ AddMust(T, V, p, on, m, can)), "wrongly_refused")

RevTags(i, T, e, u, v) ==
  LET V == AsView(u)  p == Who(i, e.p)  on == e.on  m == e.m
      known == on \in DOMAIN u.mem
      targets == RevTargets(V, on, m)
      retain == "retain" \in DOMAIN e /\ e.retain
      cgok == ~(DocKnown(u, on) /\ CapOf(u.caps, on, m) >= Read) \/ CgReady(u, on)
      new == {o \in ToSet(e.created) : IsMemOp(T, o)}
      revs == {o \in new : IsRev(T, o)}
      redl == {o \in new : IsDlg(T, o)}
      others == UNION {V.M[on][x] : x \in DOMAIN V.M[on] \ {m}}
  IN IF ~known THEN Chk(~e.ok, "unknown_accepted")
     ELSE IF e.ok THEN
            Chk(RevMay(T, V, p, on, m), "revoked_without_authority")
       \cup Chk({T[r].revoke : r \in revs} = targets
                /\ \A r \in revs : T[r].issuer = p
                     /\ T[r].proof \in RevProofs(T, V, p, on, m, T[r].revoke), "bad_revocation")
       \cup Chk(MemHeld(T, v) = MemHeld(T, u) \cup new, "side_effect")
       \cup Chk(\A d \in redl : T[d].issuer = p /\ T[d].delegate # m, "bad_redelegation")
       \cup Chk(retain \/ redl = {}, "bad_redelegation")
       \* (unless what proves it stands on something else that is being revoked)
       \cup Chk(\/ targets = {}
                \/ InEffect(v, on) \cap targets = {}
                \/ \E r \in revs :
                      /\ T[r].proof # None /\ T[r].proof # T[r].revoke
                      /\ ({T[r].proof} \cup Lineage(T, T[r].proof)) \cap (targets \ {T[r].revoke}) # {}
                      /\ T[T[r].proof].delegate # m
                \* (nor is there an effect when the caller's own authority is revoked already)
                \/ \E r \in revs : LET c == T[r].proof IN
                      /\ c # None /\ c \notin InEffect(u, on)
                      /\ RevProofs(T, V, p, on, m, T[r].revoke) \cap InEffect(u, on) = {}
                      /\ ~(p \in DOMAIN V.M[on] /\ \E x \in V.M[on][p] : T[x].can >= T[c].can),
                "revoke_no_effect")
       \cup Chk(retain => \A d \in others : CapOf(v.caps, on, T[d].delegate) >= T[d].can, "not_retained")
     ELSE \* retaining others may need more authority than revoking
          Chk(~(cgok /\ RevMust(T, V, p, on, m)) \/ retain, "wrongly_refused")

CreateTags(i, T, e, u, v) ==
  IF ~e.ok THEN {"wrongly_refused"}
  ELSE LET g == e.new  new == MemHeld(T, v) \ MemHeld(T, u)
           co == ToSet(e.co) \cap Knows(u)
       IN   Chk(g \notin DOMAIN u.mem /\ g \in DOMAIN v.mem, "group_set")
       \cup Chk({T[o].delegate : o \in new} = {Who(i, e.p)} \cup co
                /\ \A o \in new : T[o].issuer = g /\ T[o].proof = None /\ T[o].can = Admin, "bad_delegation")
       \cup Chk(v.kinds[g] = (IF e.op = "doc" THEN "doc" ELSE "grp"), "kind")

----------------------------------------------------------------------------
(* Receiving a batch. *)
CgReadyOp(T, v, p, o) ==
  /\ T[o].ok /\ DocKnown(v, T[o].doc) /\ T[o].preds \subseteq Held(v)
  /\ (T[o].k = "cadd" /\ T[o].who = p) => T[o].key \in ToSet(v.sks)

MustHold(T, v, p, o) ==
  \/ IsMemOp(T, o) /\ Ready(T, Held(v), Knows(v), o) /\ OpOK(T, v.caps, o)
  \/ IsCg(T, o) /\ CgReadyOp(T, v, p, o)
  \/ IsPk(T, o) /\ T[o].ok /\ T[o].issuer # "pub"
MayHold(T, v, p, o, ever) ==
  \/ IsMemOp(T, o) /\ Ready(T, Held(v), Knows(v), o)
       /\ (IF Nested(T, o) THEN OpOK(T, ever, o) ELSE OpOK(T, v.caps, o))
  \/ IsCg(T, o) /\ CgReadyOp(T, v, p, o)
  \/ IsPk(T, o) /\ T[o].ok

KindName(T, o) == IF IsMemOp(T, o) THEN "mem" ELSE IF IsCg(T, o) THEN "cgka" ELSE "prekey"

IngestTags(i, T, e, u, v) ==
  LET p == Who(i, e.p)
      \* what calls running at the same time made is also taken in
      S == ToSet(e.sent) \cup Pend(u) \cup (IF e.op = "par" THEN ToSet(e.created) ELSE {})
      fresh == {o \in S : o \notin Held(u)}
      ever == EverCaps(T, Held(v))
      stuck == {o \in fresh : o \notin Held(v)}
      got == Held(v) \ Held(u)
      valid(o) == o \in DOMAIN T /\ T[o].ok
  IN    Chk(got \subseteq fresh, "side_effect")
   \cup {"not_applied_" \o KindName(T, o) : o \in {x \in stuck : MustHold(T, v, p, x)}}
   \cup {"applied_early_" \o KindName(T, o) : o \in {x \in got : ~MayHold(T, v, p, x, ever)}}
   \cup Chk(\A o \in stuck : (valid(o) /\ ~IsPk(T, o)) => o \in Pend(v), "lost_pending")
   \cup Chk(Pend(v) \subseteq stuck, "pending_after_applied")
   \cup Chk(e.ok => ToSet(e.ret) = Pend(v), "pending_report")
   \cup Chk(fresh # {} \/ Same(u, v), "redelivery_changed")

(***************************************************************************)
(* One event on its own: taken in if and only if the call says so, when    *)
(* what it builds on is there; otherwise nothing changes (nor is it kept). *)
(***************************************************************************)
RcvTags(i, T, e, u, v) ==
  LET p == Who(i, e.p)
      o == e.sent[1]
      ever == EverCaps(T, Held(u) \cup {o})
      got == Held(v) \ Held(u)
      public == IsPk(T, o) /\ T[o].issuer = "pub"
  IN  IF o \in Held(u)
      THEN Chk(Same(u, v), "redelivery_changed") \cup Chk(e.ok, "refused_held")
      ELSE Chk(got \subseteq {o}, "side_effect")
      \cup Chk(Pend(v) = Pend(u), "side_effect")
      \cup (IF MustHold(T, u, p, o) /\ o \notin got THEN {"not_applied_" \o KindName(T, o)} ELSE {})
      \cup (IF o \in got /\ ~MayHold(T, u, p, o, ever) THEN {"applied_early_" \o KindName(T, o)} ELSE {})
      \cup Chk(e.ok => (o \in got \/ public), "receive_answer")
      \cup Chk(~e.ok => Same(u, v), "refused_changed")

(***************************************************************************)
(* Calls made at the same time: each takes place, nothing is lost.  (What  *)
(* came in is settled by a further, empty delivery.)  Which calls are      *)
(* allowed depends on how they are ordered and is not judged here.         *)
(***************************************************************************)
ParTags(i, T, e, u, v) ==
     Chk(ToSet(e.created) \subseteq Held(v), "par_lost")
  \cup Chk(ToSet(e.created) \subseteq ToSet(e.emitted), "unannounced")
  \cup Chk(\A j \in 1..Len(e.calls) : (j \in DOMAIN e.outs /\ e.calls[j].op \in {"exp", "rot"}) => e.outs[j].ok, "wrongly_refused")

(* What a sync from f entitles p to: f's latest view is Ev(i, cur[f]).view *)
SyncTags(i, T, e, v) ==
  IF cur[e.f] = 0 THEN {} ELSE
  LET w == Cur(i, e.f)
      p == IF "as" \in DOMAIN e THEN e.as ELSE Who(i, e.p)
      mine == {g \in DOMAIN w.trans : p \in DOMAIN w.trans[g]}
      ever == EverCaps(T, Held(w))
      \* past or present paths, and what is inside those groups
      past == {g \in DOMAIN ever : p \in DOMAIN Trans(ever, g)}
      ent  == past \cup UNION {DOMAIN Trans(ever, g) : g \in past}
      sentM == {o \in ToSet(e.sent) : IsMemOp(T, o)}
      sentC == {o \in ToSet(e.sent) : IsCg(T, o)}
      allIn(g) == OpsOf(T, Held(w), g) \subseteq Held(v)
      down(g) == {g} \cup (DOMAIN w.trans[g] \cap DOMAIN w.trans)
      cg(d) == {o \in Held(w) : IsCg(T, o) /\ T[o].doc = d}
      nested == \E o \in Held(w) : IsMemOp(T, o) /\ Nested(T, o)
  IN    Chk(nested \/ \A g \in mine : \A h \in down(g) : allIn(h), "sync_incomplete")
   \cup Chk(\A d \in mine : (d \in DOMAIN w.kinds /\ w.kinds[d] = "doc") => (cg(d) \subseteq Held(v) \/ nested), "sync_incomplete")
   \cup Chk(\A o \in sentM : Subject(T, o) \in ent, "sync_leak")
   \cup Chk(\A o \in sentC : T[o].doc \in ent, "sync_leak")

----------------------------------------------------------------------------
(* Every operation a local call creates is announced. *)
AnnounceTags(T, e, u, v) ==
  Chk((Held(v) \ Held(u)) \subseteq ToSet(e.emitted), "unannounced")

Local == {"group", "doc", "add", "rev", "pcs", "exp", "rot", "enc", "newcard"}
Receive == {"sync", "dlv", "ingarch"}

(***************************************************************************)
(* Encryption group maintenance by calls.                                  *)
(***************************************************************************)
Readers(i, v, d) == IF d \notin DOMAIN v.caps THEN {}
                    ELSE LET t == Trans(v.caps, d) IN {x \in DOMAIN t : IsInd(i, x) /\ t[x] >= Read}
ReadyDocs(u, v) == {d \in DOMAIN u.cgka \cap DOMAIN v.cgka : u.cgka[d].size >= 0 /\ v.cgka[d].size >= 0}

(* Only those who read through the member just added must be put into the *)
(* group: one more operation may also change how concurrent revocations   *)
(* and re-delegations resolve and bring somebody else back, and nobody is *)
(* put back into encryption groups by that.                               *)
ReaderTags(i, T, e, u, v) ==
  UNION {LET ru == Readers(i, u, d)  rv == Readers(i, v, d)
             mu == ToSet(u.cgka[d].members)  mv == ToSet(v.cgka[d].members)
         IN IF e.op = "add"
            THEN Chk((rv \ ru) \cap ({e.m} \cup (IF e.m \in DOMAIN v.caps THEN DOMAIN Trans(v.caps, e.m) ELSE {})) \subseteq mv,
                     "reader_not_added")
            \cup Chk(mu \subseteq mv, "reader_dropped")
            \cup Chk(mv \ mu \subseteq rv, "nonreader_added")
            ELSE Chk((ru \ rv) \cap mv = {}, "nonreader_kept")
            \cup Chk((mu \ mv) \cap rv = {}, "reader_dropped")
            \cup Chk(mv \ mu \subseteq rv, "nonreader_added")
         : d \in ReadyDocs(u, v)}

(* With no concurrency at all the group is exactly the readers.  (Revoking *)
(* a revoker may undo revocations, which are unordered; nobody is put back *)
(* into encryption groups by that.)                                        *)
ExactTags(i, T, v) ==
  LET undone == \E r \in Held(v) : IsRev(T, r) /\ T[r].revoke \in InEffect(v, Subject(T, r)) IN
  UNION {LET M == ToSet(v.cgka[d].members) \ {d}  R == Readers(i, v, d)
         IN Chk(M = R \/ (undone /\ M \subseteq R), "not_exact")
         : d \in {x \in DOMAIN v.cgka : v.cgka[x].size >= 0}}

(***************************************************************************)
(* Content.                                                                *)
(***************************************************************************)
EncTags(i, T, e, u, v) ==
  LET id == Who(i, e.p)  d == e.on  P == Pasts[i]
      ready == CgReady(u, d)
      Su == IF ready THEN ToSet(u.cgka[d].ops) ELSE {}
  IN IF e.ok
     THEN LET c == Cts(i)[e.ct]  S == ToSet(v.cgka[d].ops) IN
          IF c.upd \notin DOMAIN P THEN {"enc_no_update"}
          ELSE Chk({c.upd} \cup P[c.upd] = S, "stale_key")
          \cup Chk(id \in MayMembers(T, P, Su) \/ "pub" \in MayMembers(T, P, Su) \/ id \in Founder(T, d), "outsider_encrypts")
          \cup Chk(v.cgka[d].pcs = e.pcs \/ (v.cgka[d].pcs = "nopcs" /\ ~Keyed(T, P, S)), "stale_key")
          \cup Chk({o \in Held(v) \ Held(u) : T[o].k # "cupd"} = {}, "side_effect")
          \cup Chk(\A x \in DOMAIN Cts(i) \ {e.ct} : Cts(i)[x].key # c.key, "key_reuse")
     ELSE Chk(~(ready /\ id \in SureMembers(T, P, Su)), "member_cannot_encrypt")

DecTags(i, T, e, v) ==
  LET id == Who(i, e.p)  P == Pasts[i]  H == Held(v)
  IN UNION {LET c == Cts(i)[x]  r == e.dec[x]
                S == {c.upd} \cup P[c.upd]
                sure == SureMembers(T, P, S)  may == MayMembers(T, P, S)
                have == CgReady(v, c.doc) /\ S \subseteq ToSet(v.cgka[c.doc].ops)
            IN   Chk(r # "wrong", "wrong_plaintext")
            \cup Chk(r = "ok" => (id \in may \/ "pub" \in may \/ id \in Founder(T, c.doc)), "outsider_decrypts")
            \cup Chk((id \in sure /\ have) => r = "ok", "member_cannot_decrypt")
            \cup Chk(("pub" \in sure /\ have) => r = "ok", "public_cannot_decrypt")
            : x \in {y \in DOMAIN e.dec : y \in DOMAIN Cts(i) /\ Cts(i)[y].upd \in DOMAIN P}}

CausalTags(i, e) ==
  IF "entry" \notin DOMAIN e THEN {} ELSE
  LET CT == Cts(i)  A == ToSet(e.avail)  C == ToSet(e.corrupt)
      full0 == Complete(CT, A, e.entry)  ok == ToSet(e.res.ok)
  IN   Chk(ToSet(e.res.wrong) = {} /\ ToSet(e.res.badkeys) = {}, "causal_wrong")
  \cup Chk(ToSet(e.res.dup) = {}, "causal_duplicate")
  \cup Chk(e.canopen <=> e.ret \in {"ok", "partial"}, "causal_refused")
  \cup (IF ~e.canopen \/ e.ret \notin {"ok", "partial"} THEN Chk(ok = {}, "causal_fabricated")
        ELSE Chk(ok \subseteq full0, "causal_fabricated")
        \cup Chk(full0 \subseteq ok, "causal_lost")
        \cup Chk(ToSet(e.res.next) \subseteq Missing(CT, A, C, e.entry), "causal_report")
        \cup Chk(Missing(CT, A, C, e.entry) \subseteq ToSet(e.res.next) \cup ToSet(e.res.cannot), "causal_unreported")
        \cup Chk(Damaged(CT, A, C, e.entry) \subseteq ToSet(e.res.cannot), "causal_unreported")
        \cup Chk(ToSet(e.res.cannot) \cap ok = {}, "causal_report")
        \cup Chk((A \cup C) \ (ok \cup {e.entry}) \subseteq ToSet(e.left), "causal_store")
        \cup Chk(ToSet(e.left) \cap (ok \ {e.entry}) = {}, "causal_store"))

TamperCtTags(i, e, u, v) ==
  Chk(e.leaks = <<>>, "altered_decrypts") \cup Chk(e.broke = <<>>, "altered_breaks")

(***************************************************************************)
(* Storage, forks, devices.                                                *)
(***************************************************************************)
SameAll(u, v) == Same(u, v) /\ u.sks = v.sks
RestoreTags(i, e, u, v) ==
  IF ~e.ok THEN {"restore_failed"}
  ELSE Chk(SameAll(e.before, v), "restore_changed")
  \cup Chk(Same(u, e.before), "dec_changed")
  \cup Chk(\A c \in DOMAIN e.decBefore : e.decBefore[c] = e.decAfter[c], "restore_decrypt")
ForkTags(i, e, u, v) == Chk(SameAll(u, v) /\ SameAll(u, e.fview), "fork_changed")
MergeTags(i, T, e, u, v) ==
  LET f == e.fview
      starts == {j \in 1..(l - 1) : Ev(i, j).op = "fork" /\ Ev(i, j).p = e.p /\ "view" \in DOMAIN Ev(i, j)}
      start == Ev(i, Max(starts)).view
      lost == (Held(u) \cup Held(f)) \ Held(v)
  IN   Chk(SameAll(u, e.before), "fork_leaked")
  \cup Chk(/\ lost \subseteq Pend(v)
             /\ ~\E o \in lost : MustHold(T, v, Who(i, e.p), o), "merge_lost")
  \cup Chk(Held(v) \subseteq Held(u) \cup Held(f) \cup Pend(u) \cup Pend(f), "merge_invented")
  \cup Chk(ToSet(f.sks) \cup ToSet(u.sks) = ToSet(v.sks), "merge_secrets")
  \cup Chk((Pend(u) \cup Pend(f)) \ Held(v) \subseteq Pend(v), "merge_lost_pending")
  \cup Chk((SameAll(start, u) /\ lost = {}) => Same(f, v), "merge_differs")
DeviceTags(i, e, u, v) ==
  IF ~e.ok THEN {"device_failed"}
  ELSE Chk(Same(u, v), "device_changed")
  \cup Chk(e.badok = 0 /\ SameAll(e.dev0, e.devbad), "bad_import")
  \cup Chk(e.impok /\ ToSet(e.dev1.sks) = ToSet(e.dev0.sks) \cup ToSet(u.sks), "import_incomplete")
  \cup Chk(SameAll(e.dev1, e.dev2), "import_not_idempotent")
  \cup Chk(e.dev1.pend = <<>> \/ u.pend # <<>>, "import_left_pending")
  \cup Chk(u.held = <<>> \/ Held(u) \subseteq Held(e.dev1), "import_incomplete")

TamperTags(T, e, u, v) ==
  IF "card" \in DOMAIN e THEN Chk(~e.accepted /\ ~e.learned /\ Same(u, v), "card_accepted")
  ELSE Chk(Same(u, [v EXCEPT !.pend = u.pend]), "invalid_applied")
  \cup Chk(Pend(v) \subseteq Pend(u) \cup ToSet(e.sent), "side_effect")

(***************************************************************************)
(* Queries.                                                                *)
(***************************************************************************)
QueryTags(i, e, v) ==
  LET q == e.q
      TR == [g \in DOMAIN v.caps |-> Trans(v.caps, g)]
      docs(x) == {g \in DOMAIN v.kinds : v.kinds[g] = "doc" /\ x \in DOMAIN TR[g]}
      mbd(x) == {g \in DOMAIN v.kinds : x \in DOMAIN TR[g]}
  IN UNION {LET a == q.agents[x] IN
              (IF IsInd(i, x)
               THEN Chk(a.mem = a.memAll, "bulk_membership") \cup Chk(a.pre = a.preAll, "bulk_prekeys")
               ELSE {})
           \cup Chk(a.cg = a.cgAll, "bulk_cgka")
           \cup Chk(ToSet(a.evs) = ToSet(a.mem) \cup ToSet(a.pre) \cup ToSet(a.cg), "all_events")
           \cup Chk(DOMAIN a.docs = docs(x) /\ \A d \in docs(x) \cap DOMAIN a.docs : a.docs[d] = TR[d][x], "reach_docs")
           \cup Chk(DOMAIN a.membered = mbd(x) /\ \A g \in mbd(x) \cap DOMAIN a.membered : a.membered[g] = TR[g][x], "reach_membered")
           : x \in DOMAIN q.agents}
     \cup Chk(DOMAIN q.reachable = DOMAIN v.mem /\ \A g \in DOMAIN v.mem : q.reachable[g] = v.trans[g], "reach_members")
     \cup UNION {Chk(ToSet(q.docops[d]) = ToSet(v.cgka[d].ops), "doc_ops") : d \in DOMAIN q.docops \cap {x \in DOMAIN v.cgka : v.cgka[x].size >= 0}}

(* One event is the same event, and one identifier the same principal,     *)
(* however they are looked up, converted or sent.                          *)
LookupTags(e, v, id) ==
  LET q == e.q
      kind(x) == IF x \in DOMAIN v.kinds THEN v.kinds[x] ELSE IF x \in DOMAIN v.pkops THEN "ind" ELSE "none"
  IN   Chk(q.odd = <<>>, "not_the_same")
  \cup Chk(Held(v) \subseteq ToSet(q.back), "not_convertible")
  \cup Chk(\A x \in DOMAIN q.known : LET k == q.known[x] IN
             /\ k.agent = (IF x = id THEN "self" ELSE kind(x))
             /\ x # id => k.peer = kind(x)
             /\ k.by.grp = (kind(x) = "grp") /\ k.by.doc = (kind(x) = "doc")
             /\ x # id => k.by.ind = (kind(x) = "ind"), "lookup")

(* The store of ciphertexts, call by call. *)
RECURSIVE CtTags(_, _, _)
CtTags(C, S, done) ==
  IF done = <<>> THEN {}
  ELSE LET c == Head(done)  S1 == CtAfter(C, S, c) IN
     Chk(c.got = CtGot(C, S, c), "store_answer")
  \cup Chk(\A r \in DOMAIN c.refs : CtByRef(C, S1, r, c.refs[r]), "store_by_content")
  \cup Chk(\A u \in DOMAIN c.upds : ToSet(c.upds[u]) = CtByUpd(C, S1, u) /\ Len(c.upds[u]) = Cardinality(ToSet(c.upds[u])), "store_by_update")
  \cup CtTags(C, S1, Tail(done))

(* The statistics count what is held and what is waited for. *)
StatTags(T, s, v, id) ==
  LET n(S, k) == Cardinality({o \in S : o \in DOMAIN T /\ T[o].k \in k})
      mine(S) == {o \in S : o \in DOMAIN T /\ T[o].issuer = id}
      P == Pend(v)
      pk == UNION {ToSet(v.pkops[x]) : x \in DOMAIN v.pkops}
      kinds(k) == Cardinality({g \in DOMAIN v.kinds : v.kinds[g] = k})
  IN   Chk(s.groups = kinds("grp") /\ s.docs = kinds("doc"), "stats")
  \cup Chk(s.delegations = n(Held(v), {"dlg"}) /\ s.revocations = n(Held(v), {"rev"}), "stats")
  \cup Chk(s.cgka_operations = n(Held(v), CgOps), "stats")
  \cup Chk(s.individuals = Cardinality(DOMAIN v.pkops), "stats")
  \cup Chk(pk \subseteq DOMAIN T => (s.prekeys_expanded = n(pk, {"pkadd"}) /\ s.prekey_rotations = n(pk, {"pkrot"})), "stats")
  \cup Chk(id \in DOMAIN v.pkops => s.active_prekey_count = Cardinality(ToSet(v.pkops[id])), "stats")
  \cup Chk(s.pending_delegated = n(P, {"dlg"}) /\ s.pending_delegated_by_active = n(mine(P), {"dlg"}), "stats")
  \cup Chk(s.pending_revoked = n(P, {"rev"}) /\ s.pending_revoked_by_active = n(mine(P), {"rev"}), "stats")
  \cup Chk(s.pending_cgka_operation = n(P, CgOps) /\ s.pending_cgka_operation_by_active = n(mine(P), CgOps), "stats")
  \cup Chk(s.pending_prekeys_expanded = n(P, {"pkadd"}) /\ s.pending_prekeys_expanded_by_active = n(mine(P), {"pkadd"}), "stats")
  \cup Chk(s.pending_prekey_rotated = n(P, {"pkrot"}) /\ s.pending_prekey_rotated_by_active = n(mine(P), {"pkrot"}), "stats")

CardTags(T, e, u, v) ==
  Chk(e.ok, "card_refused")
  \cup Chk(\A o \in Held(v) \ Held(u) : IsPk(T, o) /\ (e.op = "gotcard" => o = e.card), "side_effect")
  \cup Chk(e.op = "gotcard" => e.card \in Held(v), "card_refused")
  \cup Chk(u.mem = v.mem /\ u.cgka = v.cgka /\ u.pend = v.pend, "side_effect")
OwnKeyTags(T, e, u, v) ==
  IF ~e.ok THEN {"wrongly_refused"}
  ELSE LET new == Held(v) \ Held(u) IN
       Chk(\A o \in new : IsPk(T, o) /\ T[o].new \in ToSet(v.sks), "secret_missing")
  \cup Chk(ToSet(e.created) \subseteq new /\ \A o \in new : IsPk(T, o), "side_effect")
  \* handing out a key privately also rotates it, for everybody else
  \cup Chk(e.op = "newcard" \/ new = ToSet(e.created), "side_effect")
  \cup Chk(u.mem = v.mem /\ u.cgka = v.cgka /\ u.pend = v.pend, "side_effect")
InitTags(i, T, e, v) ==
  LET id == Who(i, e.p) IN
  Chk(id \in DOMAIN v.pkops /\ \A o \in ToSet(v.pkops[id]) : T[o].new \in ToSet(v.sks), "secret_missing")
PcsTags(i, T, e, u, v) ==
  LET P == Pasts[i] IN
  IF e.ok THEN Chk(Held(v) \ Held(u) = ToSet(e.created), "side_effect")
     \cup Chk(u.mem = v.mem /\ u.pend = v.pend, "side_effect")
     \cup Chk(CgReady(v, e.on) /\ ToSet(v.cgka[e.on].members) = ToSet(u.cgka[e.on].members), "side_effect")
     \cup Chk(CgReady(v, e.on) /\ (Keyed(T, P, ToSet(v.cgka[e.on].ops)) =>
              v.cgka[e.on].pcs \notin {"nokey", "nopcs"} /\ v.cgka[e.on].pcs # u.cgka[e.on].pcs), "stale_key")
  ELSE Chk(~(CgReady(u, e.on) /\ Who(i, e.p) \in SureMembers(T, P, ToSet(u.cgka[e.on].ops))), "member_cannot_update")

(* which operations change something for everybody *)
Mutators == {"group", "doc", "add", "rev", "pcs", "enc"}
MadeBy(T, e) == IF "view" \in DOMAIN e
                THEN {o \in Held(e.view) : IsMemOp(T, o) \/ IsCg(T, o)} ELSE {}

(* an operation that nobody made by calling anything (forged) arrives *)
Foreign(T, e) == \E x \in ToSet(IF "sent" \in DOMAIN e THEN e.sent ELSE <<>>) : (IsMemOp(T, x) \/ IsCg(T, x)) /\ x \notin made

Query == {"cstore", "dec", "tct", "causal", "query", "nop", "device", "fork", "abort"}

StepTags(i, e) ==
  LET T == Tabs[i]  p == e.p  id == Who(i, p)
      first == e.op = "init"
      hang == "hang" \in DOMAIN e
      panic == "panic" \in DOMAIN e
  IN IF hang THEN {"hang"}
     ELSE IF panic THEN {"panic"}
     ELSE LET v == e.view
              u == IF cur[p] = 0 THEN <<>> ELSE Cur(i, p)
          IN  ViewTags(i, T, u, v, id) \cup ConvTags(i, T, v, p)
           \cup (IF first THEN InitTags(i, T, e, v) ELSE {})
           \cup (IF full /\ ~Foreign(T, e) /\ ~(e.op = "par" /\ e.created # <<>>) /\ made \cup MadeBy(T, e) \subseteq Held(v) THEN ExactTags(i, T, v) ELSE {})
           \cup (IF first \/ u = <<>> THEN {} ELSE
                 CASE e.op = "add" -> AddTags(i, T, e, u, v) \cup (IF e.ok THEN ReaderTags(i, T, e, u, v) ELSE {})
                   [] e.op = "rev" -> RevTags(i, T, e, u, v) \cup (IF e.ok THEN ReaderTags(i, T, e, u, v) ELSE {})
                   [] e.op \in {"group", "doc"} -> CreateTags(i, T, e, u, v)
                   [] e.op \in Receive -> IngestTags(i, T, e, u, v) \cup (IF e.op = "sync" THEN SyncTags(i, T, e, v) ELSE {})
                   [] e.op = "rcv" -> RcvTags(i, T, e, u, v)
                   [] e.op = "par" -> IngestTags(i, T, e, u, v) \cup ParTags(i, T, e, u, v)
                   [] e.op = "enc" -> EncTags(i, T, e, u, v)
                   [] e.op = "pcs" -> PcsTags(i, T, e, u, v)
                   [] e.op = "dec" -> DecTags(i, T, e, v)
                   [] e.op = "causal" -> CausalTags(i, e)
                   [] e.op = "tct" -> TamperCtTags(i, e, u, v)
                   [] e.op = "restore" -> RestoreTags(i, e, u, v)
                   [] e.op = "fork" -> ForkTags(i, e, u, v)
                   [] e.op = "merge" -> MergeTags(i, T, e, u, v)
                   [] e.op = "device" -> DeviceTags(i, e, u, v)
                   [] e.op = "tamper" -> TamperTags(T, e, u, v)
                   [] e.op = "query" -> QueryTags(i, e, v) \cup StatTags(T, e.q.stats, v, id) \cup LookupTags(e, v, id)
                   [] e.op = "cstore" -> Chk(e.ok, "store_answer") \cup (IF e.ok THEN CtTags(e.tab, {}, e.done) ELSE {})
                   [] e.op = "abort" -> Chk(e.ok, "fork_leaked")
                   [] e.op \in {"card", "gotcard"} -> CardTags(T, e, u, v)
                   [] e.op \in {"exp", "rot", "newcard"} -> OwnKeyTags(T, e, u, v)
                   [] OTHER -> {})
           \cup (IF first \/ u = <<>> THEN {} ELSE
                    (IF e.op \in Local THEN AnnounceTags(T, e, u, v) ELSE {})
               \cup (IF e.op \in Query /\ ~Same(u, v) THEN {"query_changed"} ELSE {})
               \cup (IF ~e.ok /\ e.op \in Local
                     THEN Chk(Same(u, v), "refused_changed") ELSE {}))

----------------------------------------------------------------------------
Init == /\ ti \in 1..N
        /\ l = 1
        /\ cur = [p \in ToSet(Raw[ti].peers) |-> 0]
        /\ full = TRUE
        /\ made = {}
        /\ bad = {}

Next == /\ l <= Len_(ti)
        /\ LET e == Ev(ti, l)  T == Tabs[ti] IN
             /\ bad' = StepTags(ti, e)
             /\ cur' = IF e.op = "fork" /\ "fview" \in DOMAIN e /\ "view" \in DOMAIN e
                       THEN [cur EXCEPT ![e.p] = l, ![Fork(e.p)] = l]
                       ELSE IF e.op \in {"merge", "abort"} /\ Fork(e.p) \in DOMAIN cur /\ "view" \in DOMAIN e
                       THEN [cur EXCEPT ![e.p] = l, ![Fork(e.p)] = 0]
                       ELSE IF "view" \in DOMAIN e THEN [cur EXCEPT ![e.p] = l] ELSE cur
             /\ full' = (full /\ ~(e.op \in Mutators /\ "created" \in DOMAIN e /\ (e.created # <<>> \/ e.emitted # <<>>)
                                    /\ cur[e.p] > 0 /\ ~(made \subseteq Held(Cur(ti, e.p))))
                              /\ e.op # "merge" /\ ~(e.op = "par" /\ "created" \in DOMAIN e /\ e.created # <<>>) /\ ~Foreign(T, e))
             /\ made' = made \cup MadeBy(T, e)
        /\ l' = l + 1
        /\ ti' = ti
Spec == Init /\ [][Next]_vars

(* All rejections are printed; the runner maps conjunct names to properties. *)
Report == bad = {} \/ PrintT(ToString(<<"BAD", ti, l - 1, bad>>))
=============================================================================
