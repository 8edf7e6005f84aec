#!/usr/bin/env python3
"""trybugs.py [id...] : run each planted bug against the check of its property (in copies)"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
allprops = [a[2:] for a in sys.argv[1:] if a.startswith("-p")]
tot = [0, 0]
RES = os.path.join(HERE, "results.json")
res = json.load(open(RES)) if os.path.exists(RES) else {}
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="try-")
    try:
        subprocess.check_call(["cp", "-a", "/repo", tmp + "/repo"])
        subprocess.check_call(["git", "-C", tmp + "/repo", "apply", d + "/patch.diff"])
        subprocess.check_call("mkdir %s/v && cp -a %s/driver %s/spec %s/*.py %s/known-findings.txt %s/v && mkdir %s/v/evidence && sed -i 's#=> /repo#=> %s/repo#' %s/v/driver/go.mod"
                              % (tmp, V, V, V, V, tmp, tmp, tmp, tmp), shell=True)
        for p in allprops or [meta["property"]]:
            t = time.time()
            r = subprocess.run([sys.executable, tmp + "/v/run.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            caught = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
            if not allprops:
                tot[0 if caught else 1] += 1
                if os.environ.get("VERIF_SEED", "1") == "1":
                    res[i] = "caught" if caught else "missed" if r.returncode == 0 else "error"
                    json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
            print("%-38s %s %-7s %4.0fs %s" % (i, p, "caught" if caught else "MISSED" if r.returncode == 0 else "ERROR", time.time() - t,
                                                [x for x in r.stdout.splitlines() if x.startswith("event")][:1] if caught else r.stdout[-300:]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
print("caught %d, missed %d" % tuple(tot))
