"""Which behaviours and which conjuncts of the trace specification decide which property."""

PEERS = ["a", "b", "c", "e"]



def scenario(profile, seed, n, steps):
    sc = {"id": "%s-%d-%d" % (profile, seed, n), "peers": PEERS, "seed": seed * 100000 + n,
          "steps": steps + final(profile, n)}
    import os
    if os.environ.get("KNOW") or n % 9 == 5:
        sc["know"] = "some"  # most have not met: they learn of each other from what is delivered
    return sc


def final(profile, n):
    st = []
    if profile in ("docs", "enc", "order", "store", "keys", "public", "current", "causal", "alter", "conc"):
        who = PEERS + ["z"]
        st += [{"op": "dlv", "p": p, "frac": 100} for p in who]
        st += [{"op": "dec", "p": p} for p in who]
    if profile in ("nested", "docs", "current", "public", "conc", "order", "store", "stat"):
        st += [{"op": "query", "p": p} for p in PEERS]
    return st


MEMBERSHIP = {"revoked_in_effect", "extra_member", "lost_untouched", "missing_member", "revs_resolved_differently",
              "unchained", "access_level", "revoked_list", "heads"}
CONV = {"diverged", "changed_without_ops"}
TRANS = {"trans_more", "trans_less"}
CALL_ADD = {"unknown_accepted", "escalated", "bad_delegation", "add_no_effect", "shaky_proof", "wrongly_refused"}
CALL_REV = {"revoked_without_authority", "bad_revocation", "bad_redelegation", "revoke_no_effect", "not_retained"}
INGEST = {"not_applied_mem", "not_applied_cgka", "not_applied_prekey", "applied_early_mem", "applied_early_cgka",
          "applied_early_prekey", "lost_pending", "pending_after_applied", "pending_report"}
CG = {"cgka_member_missing", "cgka_member_extra", "cgka_size", "cgka_gap", "cgka_broken", "cgka_unknown_op"}
CGKEY = {"cgka_nokey", "cgka_leak", "cgka_keys_differ", "cgka_diverged"}
CRASH = {"hang", "panic"}

TAGS = {
    "P01": MEMBERSHIP | CONV | TRANS | {"forgot", "group_set"} | {"not_applied_mem"},
    "P02": {"extra_member", "unchained", "trans_more", "escalated", "applied_early_mem", "invalid_applied", "unknown_accepted", "bad_delegation", "group_set", "access_level"},
    "P03": TRANS | {"access_level", "reach_members", "reach"},
    "P04": {"revoked_in_effect", "lost_untouched", "missing_member", "extra_member", "revoked_list", "revoke_no_effect", "not_retained", "access_level",
            "trans_more", "trans_less", "bad_redelegation", "revs_resolved_differently", "add_no_effect", "changed_without_ops", "not_applied_mem"},
    "P05": CALL_REV | {"applied_early_mem", "wrongly_refused", "revoked_in_effect", "lost_untouched", "missing_member", "unchained", "not_applied_mem", "model"},
    "P06": {"escalated", "wrongly_refused", "bad_delegation", "applied_early_mem", "extra_member", "unchained", "access_level", "trans_more", "not_applied_mem", "add_no_effect"},
    "P07": {"revs_resolved_differently", "missing_member", "extra_member", "lost_untouched", "revoked_in_effect", "diverged", "revoked_list", "unchained"},
    "P08": INGEST | {"receive_answer", "forgot", "diverged", "heads"},
    "P09": {"refused_held", "redelivery_changed", "changed_without_ops", "side_effect"},
    "P10": {"receive_answer", "invalid_applied", "card_accepted", "side_effect", "foreign_prekey_op", "applied_early_prekey", "applied_early_cgka", "applied_early_mem", "not_applied_prekey", "not_applied_mem", "not_applied_cgka", "escalated"},
    "P11": {"sync_incomplete", "sync_leak", "not_applied_mem", "not_applied_cgka", "not_applied_prekey", "heads"},
    "P12": {"bulk_membership", "bulk_prekeys", "bulk_cgka", "doc_ops", "all_events"},
    "P13": {"restore_changed", "restore_failed", "restore_decrypt", "dec_changed", "member_cannot_decrypt"} | CONV | CGKEY,
    "P14": {"side_effect", "forgot", "redelivery_changed", "foreign_prekey_op", "prekey_set", "secret_lost"} | INGEST | CONV,
    "P15": {"fork_changed", "fork_leaked", "merge_lost", "merge_invented", "merge_secrets", "merge_lost_pending", "merge_differs", "query_changed"} | CONV | CRASH,
    "P16": {"reader_not_added", "reader_dropped", "nonreader_added", "nonreader_kept", "not_exact"} | CG,
    "P17": {"member_cannot_decrypt", "member_cannot_encrypt", "wrong_plaintext", "enc_no_update", "stale_key", "cgka_nokey", "cgka_broken", "cgka_keys_differ", "member_cannot_update", "secret_missing"},
    "P18": {"outsider_decrypts", "outsider_encrypts", "cgka_leak", "stale_key", "cgka_member_extra", "nonreader_kept", "nonreader_added"},
    "P19": CG | CGKEY | {"not_applied_cgka", "applied_early_cgka", "member_cannot_update"},
    "P20": {"causal_wrong", "causal_duplicate", "causal_refused", "causal_fabricated", "causal_lost", "causal_report", "causal_unreported", "causal_store"},
    "P21": {"prekey_set", "prekey_pick", "prekeys_differ", "foreign_prekey_op", "not_applied_prekey", "applied_early_prekey", "card_refused"},
    "P22": {"secret_missing", "secret_lost", "import_incomplete", "bad_import", "device_failed", "device_changed", "import_not_idempotent", "import_left_pending", "member_cannot_decrypt", "not_applied_cgka"},
    "P23": {"receive_answer", "refused_changed", "query_changed", "side_effect", "altered_breaks"} | CRASH,
    "P24": {"altered_decrypts", "altered_breaks", "key_reuse", "wrong_plaintext"},
    "P25": {"public_cannot_decrypt", "outsider_decrypts", "cgka_leak", "stale_key", "sync_incomplete", "outsider_encrypts"},
    "P26": {"unannounced", "diverged", "cgka_diverged", "not_applied_cgka", "not_applied_mem"},
    "P27": {"reach", "reach_docs", "reach_membered", "reach_members"},
    "P28": CRASH | TRANS,
    "P29": CRASH | {"par_lost", "unannounced", "wrongly_refused", "cgka_unknown_op", "side_effect", "heads", "extra_member", "lost_untouched",
                    "group_set", "forgot", "member_cannot_decrypt"} | INGEST | CONV | CG | CGKEY | TRANS,
    "P30": {"stats", "query_changed"} | CRASH,
    "P32": {"store_answer", "store_by_content", "store_by_update"} | CRASH,
    "P31": {"not_the_same", "not_convertible", "lookup", "all_events"} | CRASH,
}

# suites: profile weights
M = ["flat", "race", "nested"]
PROFILES = {
    "P01": ["flat", "race", "nested", "order"], "P02": ["nested", "flat", "forge"], "P03": ["nested", "docs"],
    "P04": ["flat", "race", "nested"], "P05": ["flat", "nested", "forge"], "P06": ["flat", "nested", "forge"],
    "P07": ["race", "flat", "nested"], "P08": ["order", "nested", "race"], "P09": ["order", "nested", "docs"],
    "P10": ["tamper", "forge"], "P11": ["nested", "docs", "race"], "P12": ["nested", "docs", "stat"],
    "P13": ["store"], "P14": ["store"], "P15": ["fork"], "P16": ["enc", "docs", "current"], "P17": ["enc", "order", "keys", "current"],
    "P18": ["enc", "order", "current"], "P19": ["enc", "order", "docs"], "P20": ["causal"], "P21": ["keys", "tamper"],
    "P22": ["keys"], "P23": ["docs", "enc", "nested", "tamper"], "P24": ["alter", "causal"], "P25": ["public"],
    "P26": ["docs", "order"], "P27": ["nested", "docs", "stat"], "P28": ["nested", "docs"],
    "P29": ["conc"], "P30": ["stat", "store"], "P31": ["stat", "docs"], "P32": ["cts"],
}
MODEL = {
    "P01": ["MCone.cfg", "MCnest.cfg"], "P02": ["MCone.cfg", "MCforge.cfg"], "P03": ["MCnest.cfg"], "P04": ["MCone.cfg"], "P05": ["MCforge.cfg"],
    "P06": ["MCone.cfg", "MCforge.cfg"], "P07": ["MCone.cfg"], "P08": ["MCone.cfg", "MCforge.cfg"], "P11": ["MCnest.cfg"],
    "P17": ["MCkeys.cfg"], "P18": ["MCkeys.cfg"], "P19": ["MCkeys.cfg"], "P20": ["MCkeys.cfg"], "P21": ["MCkeys.cfg"], "P24": ["MCkeys.cfg"],
    "P29": ["MCoverlap.cfg"], "P32": ["MCctstore.cfg"],
}
MODEL_THOROUGH = {p: v + (["MCflat.cfg"] if p in ("P01", "P04", "P07") else []) for p, v in MODEL.items()}
FIXED = {}
NOT_YET = {}


def for_property(pid, tier):
    profs = PROFILES[pid]
    gen = []
    if tier == "quick":
        tot = {"P31": 400, "P32": 200}.get(pid, 600)
        n = max(1, tot // (len(profs) * 2))
        for k, p in enumerate(profs):
            gen.append((p, n, 18 if p != "cts" else 6, 1 + 10 * k))
            gen.append((p, n, 26 if p != "cts" else 10, 2 + 10 * k))
        rt = 300
    else:
        n = 500
        for k, p in enumerate(profs):
            for j, d in enumerate((10, 16, 22, 30)):
                gen.append((p, n if d < 30 else n // 2, d, 100 + 10 * k + j))
        rt = 500
    return {"gen": gen, "mc": (MODEL if tier == "quick" else MODEL_THOROUGH).get(pid, []), "fixed": FIXED.get(pid, ["regressions.jsonl"]),
            "tags": TAGS[pid] | {"hang", "panic", "model"}, "run_timeout": rt, "level": "model_checking"}
