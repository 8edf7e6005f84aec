#!/usr/bin/env python3
"""run.py <property>: decide one property on /repo's working tree.

Builds the driver against /repo, lets it record executions of the real code
(families of scenarios, in parallel shards), checks every trace with TLC against
the specification in spec/, model checks the specification itself, writes
evidence/<property>.json and reports.  See DESIGN.md.
"""
import concurrent.futures as cf
import itertools, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import PROPS, FAMILIES, MODELS  # noqa

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(work):
    """build the driver from /repo's working tree"""
    env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", CGO_ENABLED="0",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
               PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"))
    out = os.path.join(work, "driver")
    r = sh(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "driver"), env=env)
    if r.returncode:
        die("the driver does not build against /repo:\n" + r.stdout[-3000:])
    return out


def tlc(module, cfg, metadir, env=None, workers=1, heap="2g", timeout=3000, extra=()):
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=" + ("4" if TIER == "thorough" or workers > 1 else "1"),
           "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", metadir, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    return r.returncode, r.stdout.decode("utf-8", "replace")


def tuples(out, tag):
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag + " "):
            try:
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
            except Exception as e:
                die("unreadable line from TLC: " + line[:300] + " " + str(e))
    return res


class Shard:
    """one family, a range of scenarios: record, then check with TLC"""

    def __init__(self, work, driver, fam, seed, start, n, tag, extra=()):
        self.fam, self.seed, self.start, self.n = fam, seed, start, n
        self.dir = os.path.join(work, tag)
        self.driver, self.extra = driver, list(extra)
        self.gen, self.depth = {}, 0

    def run(self):
        os.makedirs(self.dir)
        scratch = os.path.join(self.dir, "s")
        os.makedirs(scratch)
        trace = os.path.join(self.dir, "trace.json")
        f = FAMILIES[self.fam]
        if f.get("gen") and "-in" not in self.extra:
            self.extra += ["-in", self.gen[f["gen"]]]
        cmd = [self.driver, "-family", f.get("driver", self.fam), "-seed", str(self.seed), "-from", str(self.start), "-n", str(self.n),
               "-out", trace, "-scratch", scratch, *self.extra]
        home = os.path.join(self.dir, "home")
        os.makedirs(home)
        env = dict(os.environ, HOME=home, TMPDIR=scratch, GOMAXPROCS="4")
        at = os.path.join(self.dir, "at")
        cmd += ["-progress", at]
        why = None
        try:
            r = sh(cmd, cwd=scratch, env=env, timeout=f.get("timeout", 90 if self.n == 1 else 500), preexec_fn=limits)
            if r.returncode or not os.path.exists(trace):
                why = "panic"
                out = "%d: %s" % (r.returncode, r.stdout[:1500])
        except subprocess.TimeoutExpired:
            why, out = "hang", "no end"
        if why:
            return self.died(cmd, at, why, out)
        shutil.rmtree(scratch, ignore_errors=True)
        with open(trace) as fh:
            t = json.load(fh)
        rc, out = tlc(f["module"] + ".tla", f["module"] + ".cfg", os.path.join(self.dir, "md"), env={"TRACE": trace})
        shutil.rmtree(os.path.join(self.dir, "md"), ignore_errors=True)
        want = sum(len(s["ev"]) + 1 for s in t["scens"])
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc or not m:
            return {"error": "TLC failed on %s %s\n%s" % (self.fam, trace, out[-3000:])}
        if int(m.group(2)) != want:
            return {"error": "TLC did not consume the trace of %s: %s of %d states" % (self.fam, m.group(2), want)}
        bad = tuples(out, "BAD")
        cov = {}
        for c in tuples(out, "COV"):
            for k in c[1]:
                cov[k] = cov.get(k, 0) + 1
        byname = {s["n"]: s for s in t["scens"]}
        res = {"fam": self.fam, "states": int(m.group(2)), "events": want - len(t["scens"]), "traces": len(t["scens"]), "cov": cov,
               "bad": bad, "known": tuples(out, "KNOWN"), "docs": len(t.get("docs", [])),
               "sample": None, "scen": {}, "doc": {}}
        nonempty = [s for s in t["scens"] if s["ev"]]
        if nonempty:
            s = nonempty[len(nonempty) // 2]
            res["sample"] = {"scenario": s["n"], "events": [short(e) for e in s["ev"][:12]]}
        for b in bad:
            if b[0] in byname and b[0] not in res["scen"]:
                res["scen"][b[0]] = byname[b[0]]
                ids = set()
                collect(byname[b[0]], ids)
                res["doc"][b[0]] = [d for d in t.get("docs", []) if d.get("id") in ids]
        os.remove(trace)
        return res


    def died(self, cmd, at, why, out):
        """the process of the driver ended, or did not end: was it the code under test?"""
        shutil.rmtree(os.path.join(self.dir, "s"), ignore_errors=True)
        try:
            i = int(open(at).read())
        except (OSError, ValueError):
            return {"error": "driver failed: %s\n%s" % (" ".join(cmd), out)}
        if self.depth > 4 and self.n > 1:
            return {"fam": self.fam, "states": 0, "events": 0, "traces": 0, "cov": {"skipped": self.n}, "known": [], "docs": 0, "sample": None,
                    "scen": {}, "doc": {}, "bad": []}
        name = "%s/%d/%d" % (FAMILIES[self.fam].get("driver", self.fam), self.seed, i)
        if self.n == 1:
            blame = {"TraceClient": ["C27", "C14"] + (["C32"] if self.fam in ("share", "crowd", "sharereplay", "tworeplay") else []), "TraceSet": ["C27", "C30"], "TraceKeys": ["C27", "C24", "C25"], "TraceCodec": ["C27", "C26"],
                     "TraceMulti": ["C27", "C21", "C22", "C23"], "TracePaths": ["C27", "C13", "C28"], "TraceFetch": ["C27", "C15", "C14"],
                     "TraceTarget": ["C27", "C17", "C29", "C31"]}[FAMILIES[self.fam]["module"]]
            return {"fam": self.fam, "states": 0, "events": 0, "traces": 1, "cov": {}, "known": [], "docs": 0, "sample": None, "scen": {}, "doc": {},
                    "bad": [[name, 0, ["the process " + ("did not end" if why == "hang" else "ended")], blame, [], out]]}
        res = None
        for k, (a, n) in enumerate([(self.start, i - self.start), (i, 1), (i + 1, self.start + self.n - i - 1)]):
            if n > 0:
                s = Shard(os.path.dirname(self.dir), self.driver, self.fam, self.seed, a, n, os.path.basename(self.dir) + "-%d" % k, self.extra)
                s.gen, s.depth = self.gen, self.depth + 1
                r = s.run()
                if "error" in r:
                    return r
                res = merge(res, r)
        return res


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def merge(a, b):
    if a is None:
        return b
    for k in ("states", "events", "traces", "docs"):
        a[k] += b[k]
    for k, v in b["cov"].items():
        a["cov"][k] = a["cov"].get(k, 0) + v
    a["bad"] += b["bad"]
    a["known"] += b["known"]
    a["sample"] = a["sample"] or b["sample"]
    a["scen"].update(b["scen"])
    a["doc"].update(b["doc"])
    return a


def short(e):
    return {k: (v if len(json.dumps(v)) < 160 else json.dumps(v)[:160] + "...") for k, v in e.items()}


def collect(v, ids):
    if isinstance(v, bool):
        return
    if isinstance(v, int):
        ids.add(v)
    elif isinstance(v, dict):
        for x in v.values():
            collect(x, ids)
    elif isinstance(v, list):
        for x in v:
            collect(x, ids)


def generate(work, spec, pid, need):
    """model check the specification and let TLC write its behaviours down"""
    pool = os.path.join(work, "pool-%s.json" % spec.get("cfg", spec["module"]))
    out, res = model(work, dict(spec, workers=spec.get("workers", 1)), "gen" + spec.get("cfg", spec["module"]), env={"POOL": pool})
    hist = [json.loads(x)[4:] for x in out.splitlines() if x.startswith('"GEN ')]
    out = None
    # a behaviour that is the beginning of another one adds nothing
    begins = set()
    for h in hist:
        for m in itertools.islice(re.finditer(spec.get("cut", r',{"[pxc]":'), h), 10):
            begins.add(hash(h[:m.start()] + "]"))
    hist = sorted(h for h in hist if hash(h) not in begins)
    # the checks replay different parts of them
    random.Random("%s %d" % (pid, SEED)).shuffle(hist)
    if "first" in spec:
        hist.sort(key=lambda h: not re.search(spec["first"], h))
    res["behaviours"] = len(hist)
    res["replayed"] = min(need, len(hist))
    with open(pool) as f:
        docs = json.load(f)["docs"]
    with open(pool, "w") as f:
        f.write('{"docs": %s, "hist": [%s]}' % (json.dumps(docs), ",".join(hist[:need])))
    return pool, res


def model(work, spec, tag, env=None):
    """model check the specification itself"""
    rc, out = tlc(spec["module"] + ".tla", spec.get("cfg", spec["module"]) + ".cfg", os.path.join(work, "md" + tag),
                  workers=spec.get("workers", NPROC), heap=spec.get("heap", "8g"), timeout=spec.get("timeout", 3000), extra=[*spec.get("extra", ()), *(["-seed", str(SEED)] if spec.get("seeded") else [])], env=env)
    shutil.rmtree(os.path.join(work, "md" + tag), ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if rc or not m:
        die("model checking of the specification failed: %s\n%s" % (spec, out[-3000:]))
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return out, {"model": spec["module"], "cfg": spec.get("cfg", spec["module"]), "states": int(m.group(2)), "transitions": int(m.group(1)),
            "depth": int(d.group(1)) if d else None}


def known_findings():
    """[(property, key, text)] of the findings that are recorded, not repaired"""
    res = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    pid = sys.argv[1]
    if pid not in PROPS:
        die("unknown property " + pid)
    P = PROPS[pid]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return check(pid, P, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, P, work):
    driver = build(work)
    tier = "thorough" if TIER == "thorough" else "quick"
    base = int(re.sub(r"\D", "", pid)) * 1000000 if not os.environ.get("VERIF_SAMESCEN") else 0
    shards = []
    total = 0
    for fam, n in P["families"].items():
        f = FAMILIES[fam]
        num = n[1] if tier == "thorough" else n[0]
        per = f.get("per", 400)
        k = max(1, min(f.get("maxshards", 1 << 30), -(-num // per)))
        if num >= 64 and f.get("maxshards", 8) >= 8:
            k = max(k, min(NPROC, num // 32))
        done = 0
        for i in range(k):
            c = num // k + (1 if i < num % k else 0)
            if c:
                shards.append(Shard(work, driver, fam, SEED, (0 if f.get("fixed") else base) + done, c, "%s-%d" % (fam, i)))
            done += c
        total += num
    results, models, gen = [], [], {}
    need = {}
    for s in shards:
        g = FAMILIES[s.fam].get("gen")
        need[g] = need.get(g, 0) + s.n
    with cf.ThreadPoolExecutor(NPROC) as ex:
        gens = sorted({FAMILIES[x.fam]["gen"] for x in shards if FAMILIES[x.fam].get("gen")})
        gfs = [(g, ex.submit(generate, work, MODELS[g], pid, need[g])) for g in gens]
        futs = [ex.submit(s.run) for s in shards if not FAMILIES[s.fam].get("gen")]
        for g, fu in gfs:
            gen[g], res = fu.result()
            models.append(res)
        for s in shards:
            if FAMILIES[s.fam].get("gen"):
                s.gen = gen
                futs.append(ex.submit(s.run))
        for fu in futs:
            r = fu.result()
            if "error" in r:
                die(r["error"])
            results.append(r)
    models += [model(work, MODELS[m], str(i))[1] for i, m in enumerate(P.get("models", {}).get(tier, []))]

    # --- verdict
    known = [(k, t) for p, k, t in known_findings() if p == pid]
    seen_known = set()
    for r in results:
        for kf in r["known"]:
            # kf = [scenario, event, property, key, details]
            if kf[2] == pid:
                if kf[3] in [k for k, _ in known]:
                    seen_known.add(kf[3])
                else:
                    r["bad"].append([kf[0], kf[1], ["unlisted finding"], [pid], [kf[3]], kf[4]])
    bads = []
    for r in results:
        for b in r["bad"]:
            if pid in b[3]:
                bads.append((r, b))
    lines = []
    if bads:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        # a watchdog is the one thing that depends on the load of the machine
        confirmed = []
        for r, b in bads:
            if "hang" in b[2] and len(confirmed) == 0:
                fam, seed, i = b[0].rsplit("/", 2)
                s2 = Shard(work, driver, r["fam"], int(seed), int(i), 1, "confirm-%d" % len(lines))
                s2.gen = gen
                s2 = s2.run()
                lines.append("")
                if "error" in s2 or not any("hang" in x[2] for x in s2["bad"]):
                    continue
            confirmed.append((r, b))
        shown = set()
        for r, b in confirmed:
            if b[0] in shown:
                continue
            shown.add(b[0])
            if len(shown) > 3:
                break
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9]+", "-", b[0])))
            fam, seed, i = b[0].rsplit("/", 2)
            with open(path, "w") as f:
                json.dump({"property": pid, "scenario": b[0], "event": b[1], "differences": b[2], "properties": b[3], "reasons": b[4],
                           "details": b[5], "rerun": "python3 %s/run.py --replay %s %s %s %s" % (VERIF, r["fam"], seed, i, pid),
                           "trace": r["scen"].get(b[0]), "documents": r["doc"].get(b[0])}, f, indent=1)
            print("event %s of %s: %s %s" % (b[1], b[0], ", ".join(b[2]), ", ".join(map(str, b[4]))))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        nviol = len(confirmed)
    else:
        nviol = 0
    for k, t in known:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, t))

    # --- evidence
    cov = {}
    for r in results:
        c = cov.setdefault(r["fam"], {})
        for k, v in r["cov"].items():
            c[k] = c.get(k, 0) + v
    fams = {}
    for r in results:
        c = fams.setdefault(r["fam"], {"traces": 0, "events": 0})
        c["traces"] += r["traces"]
        c["events"] += r["events"]
    samples = []
    seenf = set()
    for r in results:
        if r["sample"] and r["fam"] not in seenf:
            seenf.add(r["fam"])
            samples.append(r["sample"])
    level = P.get("level", "model_checking")
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": level,
        "coverage": {
            "states": sum(r["states"] for r in results) + sum(m["states"] for m in models),
            "transitions": sum(r["events"] for r in results) + sum(m["transitions"] for m in models),
            "traces_validated_against_impl": sum(r["traces"] for r in results),
            "documents": sum(r["docs"] for r in results),
            "families": fams,
            "reached": {f: dict(sorted(c.items(), key=lambda x: -x[1])) for f, c in cov.items()},
            "models": models,
            "samples": samples,
        },
        "assumptions": P.get("assumptions", []) + [
            "Go's standard library cryptography and JSON decoder are correct; the driver's own canonical JSON, key ids and signatures are",
            "TLC evaluates the specification correctly"],
        "wall_s": round(time.time() - T0, 1), "violations": nviol,
    }
    if P.get("rule"):
        ev["coverage"]["rule"] = P["rule"]
    need = [(f, t) for f, ts in P.get("must_reach", {}).items() for t in ts]
    ev["coverage"]["not_reached"] = ["%s:%s" % (f, t) for f, t in need if not cov.get(f, {}).get(t)]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if nviol:
        return 1
    print("%s: held on %d traces (%d events), models: %s; %.1f s" % (
        pid, ev["coverage"]["traces_validated_against_impl"], sum(r["events"] for r in results),
        ", ".join("%s %d states" % (m["cfg"], m["states"]) for m in models) or "-", time.time() - T0))
    return 0


def replay(fam, seed, i, pid=""):
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        driver = build(work)
        r = Shard(work, driver, fam, int(seed), int(i), 1, "r")
        g = FAMILIES[fam].get("gen")
        if g:
            r.gen = {g: generate(work, MODELS[g], pid, int(i) + 1)[0]}
        r = r.run()
        if "error" in r:
            die(r["error"])
        for b in r["bad"]:
            print(json.dumps(b))
        print("%d deviations" % len(r["bad"]))
        return 1 if r["bad"] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) in (5, 6) and sys.argv[1] == "--replay":
        sys.exit(replay(*sys.argv[2:]))
    sys.exit(main())
