#!/usr/bin/env python3
"""tryedits.py WORKERS EDITS.py [ID...]: edits of the library, each in a copy outside /repo: does it build, do the
stable tests pass, which family of the properties' checks notices it. EDITS.py defines E, a list of
(id, "C01 C02", [(file, old, new)...]), where ("REVERT", commit, "") takes a commit back. A tool for finding what the checks miss; no check uses it."""
import concurrent.futures as cf
import json, os, queue, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
from checks import FAMILIES, MODELS, PROPS

STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []))


def main():
    workers, src = int(sys.argv[1]), {}
    exec(open(sys.argv[2]).read(), src)
    edits = [e for e in src["E"] if len(sys.argv) < 4 or e[0] in sys.argv[3:]]
    base = tempfile.mkdtemp(prefix="edits-")
    gens, q = {}, queue.Queue()
    for e in edits:
        for p in e[1].split():
            for fam, n in PROPS[p]["families"].items():
                g = FAMILIES[fam].get("gen")
                if g and n[0] and g not in gens:
                    gens[g] = run.generate(base, MODELS[g], "ED", 1200)[0]
    for k in range(workers):
        w = os.path.join(base, "w%d" % k)
        os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        subprocess.run(["cp", "-a", os.path.join(run.VERIF, "driver"), w + "/driver"], check=True)
        s = open(w + "/driver/go.mod").read().replace("=> /repo", "=> " + w + "/repo")
        open(w + "/driver/go.mod", "w").write(s)
        q.put(w)
    env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", CGO_ENABLED="0")

    def sh(cmd, cwd, **kw):
        r = subprocess.run(cmd, cwd=cwd, env=dict(env, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        return r.returncode, r.stdout

    def one(e):
        w = q.get()
        try:
            for f, old, new in e[2]:
                if f == "REVERT":
                    rc, o = sh(["git", "revert", "--no-commit", old], w + "/repo")
                    if rc:
                        return e, "CONFLICT " + o[:300]
                    continue
                s = open(os.path.join(w, "repo", f)).read()
                if s.count(old) < 1:
                    return e, "NO SUCH TEXT in %s: %s" % (f, old[:60])
                open(os.path.join(w, "repo", f), "w").write(s.replace(old, new, 1))
            rc, o = sh(["go", "build", "-o", w + "/drv", "."], w + "/driver")
            if rc:
                return e, "BUILD " + o[:400]
            rc, o = sh(["go", "test", "-json", "-vet=off", "-count=1", "./metadata", "./metadata/config", "./metadata/multirepo", "./metadata/trustedmetadata", "./metadata/repository", "./testutils/..."], w + "/repo", TMPDIR=w)
            bad = [json.loads(l).get("Test") for l in o.splitlines() if '"Action":"fail"' in l]
            if bad:
                return e, "TESTS %s" % bad[:4]
            fams, other = {}, ""
            for p in e[1].split():
                for fam, n in PROPS[p]["families"].items():
                    fams[fam] = max(fams.get(fam, 0), n[0])
            start = {fam: 0 for fam in fams}
            while any(start[f] < fams[f] for f in fams):
                for fam in sorted(fams):
                    n = min(FAMILIES[fam].get("per", 400), fams[fam] - start[fam])
                    if n <= 0:
                        continue
                    d = os.path.join(w, "run")
                    shutil.rmtree(d, ignore_errors=True)
                    os.makedirs(d)
                    s = run.Shard(d, w + "/drv", fam, 1, (0 if FAMILIES[fam].get("fixed") else 1000003) + start[fam], n, "x")
                    s.gen = gens
                    start[fam] += n
                    try:
                        r = s.run()
                    except SystemExit:
                        r = {"error": "exit"}
                    if "error" in r:
                        return e, "ERROR %s %s" % (fam, r["error"][:500])
                    if r["bad"]:
                        ps = sorted({p for b in r["bad"] for p in b[3]})
                        if set(ps) & set(e[1].split()):
                            return e, "caught %s after %d: %s %s" % (fam, start[fam], " ".join(ps), r["bad"][0][2][:100])
                        other = " (only as %s in %s)" % (" ".join(ps), fam)
            return e, "MISSED" + other
        finally:
            sh(["git", "reset", "-q", "--hard"], w + "/repo")
            q.put(w)

    with cf.ThreadPoolExecutor(workers) as ex:
        for e, r in ex.map(one, edits):
            print(e[0], e[1], "|", r, flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
