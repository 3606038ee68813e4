#!/usr/bin/env python3
"""check.py <property> <quick|thorough>     decide one property on /repo's working tree
   check.py --replay <file>                 run one recorded scenario again and judge it

1. model-checks the TLA+ state machine (TLC, bounded configurations),
2. lets TLC generate behaviours of the specification (KeyhiveGen) as scenarios,
3. runs them on the real implementation (harness crate), recording traces,
4. checks every recorded trace against the specification with TLC (KeyhiveTrace).
"""
import json, os, re, resource, subprocess, sys, time, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.environ.get("KH_TARGET", os.path.join(ROOT, "target"))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import suites

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORK = None
T0 = time.time()


def log(*a):
    print("[%5.1fs]" % (time.time() - T0), *a, flush=True)


def die(msg):
    log("NO ANSWER:", msg)
    sys.exit(2)


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace")


def build():
    cmd = ". /opt/vp/env.sh 2>/dev/null; cd %s/harness && CARGO_TARGET_DIR=%s cargo build --offline 2>&1" % (ROOT, TARGET)
    rc, out = sh(["bash", "-c", cmd], 700)
    if rc != 0:
        die("harness does not build\n" + out[-3000:])
    log("harness built")
    return os.path.join(TARGET, "debug", "kh_harness")


TLCX = ["-XX:+UseParallelGC", "-Xmx3g"]


def tlc(cfg, mod, args, timeout, env=None, heap="3g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=WORK)
    # -metadir keeps the state files away; run from a copy of the specs
    jar = "/opt/veriftools/tla/tla2tools.jar"
    cm = "/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["tlc"] + args + ["-metadir", meta, "-noGenerateSpecTE", "-config", cfg, mod]
    e = {"JAVA_TOOL_OPTIONS": "-Xmx%s -XX:+UseParallelGC -Xss16m" % heap}
    e.update(env or {})
    rc, out = sh(cmd, timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def model_check(cfg, timeout):
    mod = cfg.replace(".cfg", ".tla")
    rc, out = tlc(cfg, mod if os.path.exists(os.path.join(SPEC, mod)) else "MC.tla", ["-workers", "2"], timeout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    ok = "No error has been found" in out
    viol = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|Deadlock reached", out)
    return cfg, ok, st, (viol.group(0) if viol else None), out


def generate(profile, num, depth, seed, timeout=240):
    rc, out = tlc("KeyhiveGen.cfg", "KeyhiveGen.tla",
                  ["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-workers", "1", "-seed", str(seed)],
                  timeout, env={"PROFILE": profile, "DEPTH": str(depth)}, heap="2g")
    sc = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"SCENARIO '):
            steps = json.loads(json.loads(line)[9:])
            n = len(sc) + 1
            sc.append(suites.scenario(profile, seed, n, steps))
    if not sc:
        die("no scenarios generated for %s\n%s" % (profile, out[-2000:]))
    return sc


def run_harness(binary, scs, timeout):
    f = os.path.join(WORK, "scenarios-%d.jsonl" % time.time_ns())
    with open(f, "w") as h:
        for s in scs:
            h.write(json.dumps(s) + "\n")
    out = f + ".traces"
    prog = f + ".progress"
    with open(out, "w") as o:
        try:
            p = subprocess.run([binary, "run", f, prog], stdout=o, stderr=subprocess.PIPE, timeout=timeout,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30)))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 124
    traces = [json.loads(l) for l in open(out)] if rc == 0 else []
    started, done = set(), set()
    if os.path.exists(prog):
        for l in open(prog):
            w = l.split()
            if len(w) == 2:
                (started if w[0] == "start" else done).add(int(w[1]))
    stuck = sorted(started - done)
    return rc, traces, [scs[i] for i in stuck]


def judge(traces, timeout):
    """TLC decides which recorded steps are not steps of the specification."""
    bad = []
    if not traces:
        return bad, 0
    states = 0

    def one(chunk):
        base, trs = chunk
        f = os.path.join(WORK, "t-%d.jsonl" % time.time_ns())
        with open(f, "w") as h:
            for t in trs:
                h.write(json.dumps(t) + "\n")
        rc, out = tlc("KeyhiveTrace.cfg", "KeyhiveTrace.tla", ["-workers", "2"], timeout, env={"TRACES": f}, heap="3g")
        os.unlink(f)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if "No error has been found" not in out:
            return None, out, 0
        r = set()
        for l in out.splitlines():
            x = re.search(r'"BAD\W+, (\d+), (\d+), \{(.*)\}', l)
            if x:
                r.add((int(x.group(1)) - 1 + base, int(x.group(2)), tuple(sorted(re.findall(r'(\w+)', x.group(3))))))
        return r, out, int(m.group(2)) if m else 0

    n = max(1, min(60, (len(traces) + 3) // 4))
    chunks = [(i, traces[i:i + n]) for i in range(0, len(traces), n)]
    with ThreadPoolExecutor(4) as ex:
        for r, out, st in ex.map(one, chunks):
            if r is None:
                die("trace checking failed\n" + "\n".join(l for l in out.splitlines() if "BAD" not in l)[-3000:])
            bad += sorted(r)
            states += st
    return bad, states


def known(pid):
    """identifiers of scenarios/tags recorded as known findings of this property"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"KNOWN-FINDING: property=(\S+) scenario=(\S+) tags=(\S+) (.*)", l.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), set(m.group(3).split(",")), m.group(4)))
    return out


def main():
    global WORK
    WORK = tempfile.mkdtemp(prefix="khcheck")
    try:
        return run()
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


def run():
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        rc, traces, _ = run_harness(build(), [rec["scenario"]], 200)
        bad, _ = judge(traces, 300)
        for b in bad:
            print("event %d: %s" % (b[1], ", ".join(b[2])))
        return 1 if bad else 0
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    suite = suites.for_property(pid, tier)
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ex = ThreadPoolExecutor(8)
    b = ex.submit(build)
    gens = [ex.submit(generate, p, n, d, SEED * 1000 + k) for (p, n, d, k) in suite["gen"]]
    mcs = [ex.submit(model_check, c, 800) for c in suite["mc"]]
    scs = []
    for f in suite["fixed"]:
        for l in open(os.path.join(ROOT, "scenarios", f)):
            if l.strip() and not l.startswith("//"):
                scs.append(json.loads(l))
    nfixed = len(scs)
    for g in gens:
        scs += g.result()
    binary = b.result()
    log("%d scenarios" % len(scs))
    rc, traces, stuck = run_harness(binary, scs, suite["run_timeout"])
    violations = []
    if rc != 0:
        # an operation never returned, or the process died
        for s in stuck[:3]:
            r2, t2, _ = run_harness(binary, [s], 60)
            if r2 != 0:
                violations.append(("never returned" if r2 == 124 else "process died", s, None, ["hang"]))
        if not violations:
            die("harness ended with %d" % rc)
    log("%d traces recorded, %d events" % (len(traces), sum(len(t["events"]) for t in traces)))
    bad, states = judge(traces, 600)
    log("judged: %d rejected steps" % len(bad))
    tags = suite["tags"]
    kf = known(pid)
    hit = {}
    seen = set()
    for (ti, ei, tg) in bad:
        mine = [t for t in tg if t in tags]
        sid = scs[ti]["id"]
        if not mine:
            continue
        left = []
        for t in mine:
            k = [x for x in kf if x[0] == sid and t in x[1]]
            if k:
                hit[(k[0][0], k[0][2])] = True
            else:
                left.append(t)
        if left and ti not in seen:
            seen.add(ti)
            violations.append(("event %d" % ei, scs[ti], ei, left))
    for sid, txt, in hit:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, sid, txt))
    mstates = 0
    mtrans = 0
    mcout = []
    for m in mcs:
        cfg, ok, st, viol, out = m.result()
        mstates += st[1]
        mtrans += st[0]
        mcout.append({"config": cfg, "distinct_states": st[1], "states": st[0], "ok": ok})
        if viol:
            violations.append(("model %s: %s" % (cfg, viol), {"id": cfg, "tlc": out[-4000:]}, None, ["model"]))
        elif not ok:
            die("model checking of %s gave no answer\n%s" % (cfg, out[-1500:]))
    nev = sum(len(t["events"]) for t in traces)
    ops = {}
    for t in traces:
        for e in t["events"]:
            k = e["op"] + ("" if e.get("ok") else "!")
            ops[k] = ops.get(k, 0) + 1
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": suite["level"],
        "coverage": {"states": mstates + states, "transitions": mtrans + nev,
                     "traces_validated_against_impl": len(traces),
                     "samples": [{"model": mcout}, {"profiles": [list(g) for g in suite["gen"]]},
                                 {"fixed_scenarios": nfixed}, {"events_by_kind": ops},
                                 {"scenario": scs[-1] if scs else None}]},
        "wall_s": round(time.time() - T0, 1), "violations": len(violations),
    }
    if len(sys.argv) <= 3:
        json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    for i, (where, sc, ei, tg) in enumerate(violations[:5]):
        rp = os.path.join(evdir, "replay-%s-%d.json" % (pid, i + 1))
        json.dump({"property": pid, "where": where, "tags": tg, "scenario": sc}, open(rp, "w"))
        print("  %s %s: %s" % (sc.get("id"), where, ", ".join(tg)))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    log("done: %d violations" % len(violations))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
