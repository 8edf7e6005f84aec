#!/usr/bin/env python3
"""mutate.py WORKERS OUT.jsonl [file:pattern...]: small mechanical changes of the library, each in a
copy outside /repo: which are noticed by the tests, which by the checks, which by nobody.
A tool for finding what the checks miss; no check uses it."""
import concurrent.futures as cf
import json, os, queue, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
from checks import FAMILIES, MODELS

FILES = {
    "metadata/fetcher/fetcher.go": [("fetchreplay", 105), ("fetch", 100), ("wire", 150)],
    "metadata/multirepo/multirepo.go": [("multi", 400), ("multireplay", 300)],
    "metadata/config/config.go": [("client", 150), ("multi", 150), ("offline", 100), ("target", 100), ("paths", 100)],
    "metadata/keys.go": [("keys", 300), ("codec", 200), ("lib", 100), ("set", 150)],
    "metadata/errors.go": [("set", 200), ("client", 200), ("target", 200), ("fetch", 80), ("keys", 100), ("codec", 100)],
    "metadata/repository/repository.go": [("lib", 100), ("codec", 200)],
    "metadata/trustedmetadata/trustedmetadata.go": [("set", 400), ("setreplay", 300), ("client", 200), ("replay", 300)],
    "metadata/updater/updater.go": [("replay", 300), ("client", 350), ("store", 200), ("damage", 200), ("offline", 150), ("target", 250), ("wire", 80), ("multi", 80), ("walkreplay", 200)],
    "metadata/marshal.go": [("codec", 600), ("keys", 150), ("client", 120), ("set", 120), ("lib", 60)],
    "metadata/metadata.go": [("keys", 300), ("codec", 300), ("paths", 400), ("set", 200), ("client", 200), ("target", 200), ("lib", 80), ("glob", 40), ("keysreplay", 200)],
}
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []))


def main():
    workers, out = int(sys.argv[1]), sys.argv[2]
    only = sys.argv[3:]
    base = tempfile.mkdtemp(prefix="mutate-")
    subprocess.run(["go", "build", "-o", base + "/mutate", "."], cwd=os.path.join(run.VERIF, "tools/mutate"), check=True)
    jobs = []
    for f in FILES:
        if only and not any(o.split(":")[0] in f for o in only):
            continue
        d = os.path.join(base, "m", f)
        subprocess.run([base + "/mutate", "/repo/" + f, d], check=True)
        for line in open(d + "/list"):
            n, ln, fn, what = line.rstrip("\n").split("\t", 3)
            if only and not any(re.search(o.split(":", 1)[1] if ":" in o else ".", fn + " " + what) for o in only if o.split(":")[0] in f):
                continue
            jobs.append((f, d + "/%s.go" % n, int(ln), fn, what))
    done = set()
    if os.path.exists(out):
        for x in open(out):
            j = json.loads(x)
            done.add((j["file"], j["line"], j["what"]))
    jobs = [j for j in jobs if (j[0], j[2], j[4]) not in done]
    print(len(jobs), "mutants", flush=True)
    gens = {}
    for f in {j[0] for j in jobs}:
        for fam, n in FILES[f]:
            g = FAMILIES[fam].get("gen")
            if g and g not in gens:
                gens[g] = run.generate(base, MODELS[g], "MUT", 1200)[0]
    q = queue.Queue()
    for k in range(workers):
        w = os.path.join(base, "w%d" % k)
        os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        subprocess.run(["cp", "-a", os.path.join(run.VERIF, "driver"), w + "/driver"], check=True)
        p = w + "/driver/go.mod"
        s = open(p).read().replace("=> /repo", "=> " + w + "/repo")
        open(p, "w").write(s)
        q.put(w)
    env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", CGO_ENABLED="0", GOMAXPROCS="2")

    def sh(cmd, cwd, timeout=120):
        try:
            r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return 99, "timeout"

    def one(j):
        f, src, line, fn, what = j
        w = q.get()
        res = {"file": f, "line": line, "fn": fn, "what": what}
        try:
            shutil.copy(src, os.path.join(w, "repo", f))
            rc, o = sh(["go", "build", "-o", w + "/drv", "."], w + "/driver")
            if rc:
                res["by"] = "build"
                return res
            e = dict(env, TMPDIR=w)
            rc, o = sh(["go", "test", "-json", "-vet=off", "-count=1", "./metadata", "./metadata/config", "./metadata/multirepo", "./metadata/trustedmetadata", "./metadata/repository", "./testutils/..."], w + "/repo")
            bad = [l for l in o.splitlines() if '"Action":"fail"' in l]
            if rc == 99 or bad:
                res["by"] = "tests"
                return res
            for fam, n in FILES[f]:
                d = os.path.join(w, "run")
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                s = run.Shard(d, w + "/drv", fam, 7, 0, n, "x")
                s.gen = gens
                try:
                    r = s.run()
                except SystemExit:
                    r = {"error": "exit"}
                if "error" in r:
                    res["by"], res["error"] = "error", fam + ": " + r["error"][:600]
                    return res
                if r["bad"]:
                    ps = sorted({p for b in r["bad"] for p in b[3]})
                    res["by"], res["props"], res["why"] = fam, ps, r["bad"][0][2]
                    return res
            res["by"] = "nobody"
            return res
        finally:
            shutil.copy("/repo/" + f, os.path.join(w, "repo", f))
            q.put(w)

    with cf.ThreadPoolExecutor(workers) as ex, open(out, "a") as fo:
        for r in ex.map(one, jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()
    shutil.rmtree(base, ignore_errors=True)


main()
