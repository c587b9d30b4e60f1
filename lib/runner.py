"""Runs a check, applies the known-findings list, writes evidence, prints the verdict."""
import json, os, sys, time, subprocess, shutil, tempfile, hashlib, re
import build

VERIF = build.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = 8

class Result:
    def __init__(self, prop):
        self.prop = prop
        self.failures = []      # dicts: key, msg, case..., each a potential violation
        self.groups = {}        # name -> {cases,evals,distinct,fails}
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.rule = ""
        self.broken = []        # reasons for "no verdict"
        self.known_checked = {} # finding id -> True when its probe reproduced
    def group(self, name, cases=0, evals=0, distinct=0, fails=0):
        g = self.groups.setdefault(name, {"cases": 0, "evals": 0, "distinct": 0, "fails": 0})
        g["cases"] += cases; g["evals"] += evals; g["distinct"] += distinct; g["fails"] += fails
        return g
    def fail(self, key, msg, **kw):
        self.failures.append(dict(key=key, msg=msg, **kw))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]

def match_known(prop, f, findings):
    for k in findings:
        if k.get("status") != "known" or prop not in k["properties"]:
            continue
        m = k["match"]
        ok = True
        for field, rx in m.items():
            if not re.search(rx, str(f.get(field, "")), re.S):
                ok = False; break
        if ok: return k
    return None

def run_harness(res, exe, harness_prop, shards=NCPU, env=None, groups=None, timeout=800, args=(), work=None):
    """Run a vh.h based driver sharded; collect its NDJSON."""
    own = work is None
    work = work or tempfile.mkdtemp(prefix="vh-")
    procs = []
    try:
        for s in range(shards):
            out = os.path.join(work, "out-%d" % s)
            w = os.path.join(work, "w-%d" % s); os.makedirs(w, exist_ok=True)
            cmd = [exe, "--prop=" + harness_prop, "--seed=%d" % SEED, "--tier=" + TIER, "--shard=%d/%d" % (s, shards), "--out=" + out, "--work=" + w] + list(args)
            procs.append((s, out, subprocess.Popen(cmd, env=env or build.san_env(), stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "stderr-%d" % s), "w"), cwd=w)))
        end = time.time() + (timeout if TIER == "quick" else 9 * timeout)
        for s, out, p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                res.broken.append("driver shard %d timed out" % s)
            done = False
            if os.path.exists(out):
                with open(out, errors="replace") as f:
                    for line in f:
                        try: e = json.loads(line)
                        except ValueError: continue
                        if e["t"] == "done": done = True
                        elif e["t"] == "group": res.group(e["group"], e["cases"], e["evals"], e["distinct"], e["fails"])
                        elif e["t"] == "seen": res.extra[e["name"]] = res.extra.get(e["name"], 0) + e["n"]
                        elif e["t"] == "sample": res.sample("%s: %s" % (e["group"], e["text"]))
                        elif e["t"] in ("fail", "crash"):
                            key = e["key"] if e["t"] == "fail" else "crash/%s" % e["key"]
                            res.fail(key, e["msg"], group=e["group"], case=e["case"], desc=e.get("desc", ""),
                                     replay_cmd="%s --prop=%s --seed=%d --tier=%s --group=%s --case=%d" % (os.path.basename(exe), harness_prop, SEED, TIER, e["group"], e["case"]))
            if not done and not res.failures:
                err = open(os.path.join(work, "stderr-%d" % s), errors="replace").read()[-1500:]
                res.broken.append("driver shard %d ended without finishing (rc %s): %s" % (s, p.returncode, err))
    finally:
        for _, _, p in procs:
            if p.poll() is None: p.kill()
        if own: shutil.rmtree(work, ignore_errors=True)
    return res

def finish(res, t0, level="exploration"):
    findings = known_findings()
    violations = []
    known_hit = {}
    for f in res.failures:
        k = match_known(res.prop, f, findings)
        if k: known_hit.setdefault(k["id"], f)
        else: violations.append(f)
    ev = sum(g["evals"] for g in res.groups.values())
    di = sum(g["distinct"] for g in res.groups.values())
    for name, g in res.groups.items():
        if g["evals"] == 0 and not res.failures:
            res.broken.append("group %s observed nothing" % name)
    if not res.groups and not res.failures: res.broken.append("no groups ran")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evd = {"property": res.prop, "tier": TIER, "seed": SEED, "level": level,
           "coverage": dict({"evaluations": ev, "distinct_nontrivial": di, "rule": res.rule, "samples": res.samples or ["(none)"], "groups": res.groups}, **res.extra),
           "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
           "known_findings_seen": sorted(known_hit)}
    with open(os.path.join(VERIF, "evidence", res.prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    for name, g in sorted(res.groups.items()):
        print("  %-34s cases=%-8d evaluations=%-9d distinct=%-8d fails=%d" % (name, g["cases"], g["evals"], g["distinct"], g["fails"]))
    for kid, f in sorted(known_hit.items()):
        k = [x for x in findings if x["id"] == kid][0]
        print("KNOWN-FINDING: property=%s %s (%s)" % (res.prop, k["what"], kid))
    for k in findings:
        if k.get("status") == "known" and res.prop in k["properties"] and k["id"] not in known_hit and k.get("probed"):
            print("note: listed finding %s was not reproduced in this run" % k["id"])
    if violations:
        rd = os.path.join(VERIF, "build", "replay"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d-%s.json" % (res.prop, SEED, hashlib.sha1(repr(violations[0]).encode()).hexdigest()[:8]))
        with open(path, "w") as f:
            json.dump({"property": res.prop, "seed": SEED, "tier": TIER, "violations": violations[:50]}, f, indent=1)
        for v in violations[:8]:
            print("  violation %s: %s\n    case: %s" % (v["key"], str(v["msg"])[:700], str(v.get("desc", ""))[:500]))
        print("VIOLATION property=%s replay=%s" % (res.prop, path))
        return 1
    if res.broken:
        print("NO VERDICT property=%s: %s" % (res.prop, "; ".join(res.broken)[:3000]))
        return 2
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (res.prop, ev, di, time.time() - t0))
    return 0
