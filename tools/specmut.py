#!/usr/bin/env python3
"""specmut.py WORKERS OUT.jsonl [MODULE...]: small mechanical changes of the specification; each is tried on traces
recorded from the unchanged code (does some event of them need this clause?) and on the models (does some property
checked there?).  What neither notices is a clause that the recorded executions do not exercise.
A tool for finding gaps of the scenarios; no check uses it."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
from checks import FAMILIES, MODELS

CL = [("client", 800), ("replay", 400), ("offline", 200), ("store", 200), ("damage", 200), ("honest", 200), ("share", 200), ("cache", 300), ("walkreplay", 200)]
SET = [("set", 800), ("setreplay", 700)]
USES = {
    "TufRules": (SET + [("paths", 600), ("glob", 160)] + CL, ["set", "client", "honestSmall", "walk", "match"]),
    "Client": (CL, ["client", "honestSmall", "walk"]),
    "Store": ([("store", 300), ("client", 200)], ["store", "storeAny"]),
    "Keys": ([("keys", 800), ("keysreplay", 400)], ["keys"]),
    "Format": ([("codec", 800), ("keys", 100), ("set", 300)], []),
    "Target": ([("target", 800), ("targetreplay", 400), ("multi", 200)], ["target"]),
    "Fetch": ([("fetch", 200), ("fetchreplay", 105)], ["fetch"]),
    "Multi": ([("multi", 600), ("multireplay", 600)], ["multi"]),
    "Releases": ([], ["honestSmall", "honestLife", "two"]),
}
OPS = [(r"(?<![<>=/#:\\.|])<=(?![>=])", "<"), (r"(?<![<>=\\:|-])<(?![<=>-])", "<="), (r"(?<![<>=\\:|-])>=", ">"), (r"(?<![<>=\\:|>-])>(?![>=])", ">="),
       (r"(?<![<>=/#:\\|~-])=(?![=>])", "#"), (r" # ", " = "), (r"\\in\b", r"\\notin"), (r"\\notin\b", r"\\in"), (r" /\\ ", r" \\/ "), (r" \\/ ", r" /\\ "),
       (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 0"), (r"\\subseteq\b", r"\\supseteq"), (r"\\union\b", r"\\intersect"), (r"\\cup\b", r"\\cap"), (r"~(?=[A-Za-z(])", ""), (r"\\E\b", r"\\A"), (r"\\A\b", r"\\E"),
       (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE")]


def mutants(src):
    """(line, what, text)"""
    lines = src.split("\n")
    res, inc = [], 0
    for i, l in enumerate(lines):
        code = l
        inc_before = inc
        inc += l.count("(*") - l.count("*)")
        if inc_before or inc or l.strip().startswith(("\\*", "(*", "---", "===", "EXTENDS", "LOCAL INSTANCE", "INSTANCE", "RECURSIVE", "CONSTANT", "VARIABLE")) or not l.strip():
            continue
        code = l.split("\\*")[0]
        tail = l[len(code):]

        def add(new, what):
            if new != code:
                res.append((i + 1, what, "\n".join(lines[:i] + [new + tail] + lines[i + 1:])))
        m = re.match(r"^(\s*(?:\S.*==\s*)?)/\\ (.*)$", code)
        body = m and m.group(2)
        nxt = lines[i + 1] if i + 1 < len(lines) else ""
        ind = lambda x: len(x) - len(x.lstrip())
        whole = m and not (nxt.strip() and ind(nxt) > ind(m.group(1) + "x"))
        if m and whole and not re.match(r"^(LET|IF|\\[AE]).*[:INTHE]\s*$", body):
            add(m.group(1) + "/\\ TRUE", "conjunct dropped: " + body.strip())
        m = re.match(r"^(\s*)\\/ (.*)$", code)
        if m and not (nxt.strip() and ind(nxt) > len(m.group(1))):
            add(m.group(1) + "\\/ FALSE", "disjunct dropped: " + m.group(2).strip())
        for pat, rep in OPS:
            for k in re.finditer(pat, code):
                if "==" in code[max(0, k.start() - 1):k.end() + 1] or '"' in code and code[:k.start()].count('"') % 2:
                    continue
                if pat.startswith("(?<![<>=/#:") and re.search(r"(EXCEPT[^]]*|LET\s+\w+(\([^)]*\))?\s*)$", code[:k.start()]):
                    continue
                add(code[:k.start()] + re.sub(pat, rep, code[k.start():k.end()], 1) + code[k.end():], "%s -> %s at %d" % (k.group(0).strip(), rep.replace("\\\\", "\\").strip(), k.start()))
    return res


def main():
    workers, out = int(sys.argv[1]), sys.argv[2]
    mods = sys.argv[3:] or list(USES)
    base = tempfile.mkdtemp(prefix="specmut-")
    drv = os.path.join(base, "drv")
    subprocess.run(["go", "build", "-o", drv, "."], cwd=os.path.join(run.VERIF, "driver"), check=True,
                   env=dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", CGO_ENABLED="0"))
    traces, gens = {}, {}
    jobs = []

    def record(x):
        fam, n = x
        d = os.path.join(base, "t-%s-%d" % (fam, n))
        os.makedirs(d + "/s")
        os.makedirs(d + "/home")
        f = FAMILIES[fam]
        cmd = [drv, "-family", f.get("driver", fam), "-seed", "5", "-from", "0", "-n", str(n), "-out", d + "/trace.json", "-scratch", d + "/s", "-progress", d + "/at"]
        if f.get("gen"):
            cmd += ["-in", gens[f["gen"]]]
        subprocess.run(cmd, cwd=d, env=dict(os.environ, HOME=d + "/home", TMPDIR=d + "/s"), check=True, preexec_fn=run.limits, stdout=subprocess.DEVNULL)
        shutil.rmtree(d + "/s", ignore_errors=True)
        traces[x] = d + "/trace.json"
    need = sorted({x for m in mods for x in USES[m][0]})
    for fam, n in need:
        g = FAMILIES[fam].get("gen")
        if g and g not in gens:
            gens[g] = run.generate(base, MODELS[g], "SPECMUT", 3000)[0]
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(record, need))
    done = set()
    if os.path.exists(out):
        done = {(j["module"], j["line"], j["what"]) for j in map(json.loads, open(out))}
    for m in mods:
        src = open(os.path.join(run.VERIF, "spec", m + ".tla")).read()
        for ln, what, text in mutants(src):
            if (m, ln, what) not in done:
                jobs.append((m, ln, what, text))
    print(len(jobs), "mutants", flush=True)

    def one(j):
        m, ln, what, text = j
        res = {"module": m, "line": ln, "what": what}
        w = tempfile.mkdtemp(prefix="m-", dir=base)
        try:
            shutil.copytree(os.path.join(run.VERIF, "spec"), w + "/spec")
            open(w + "/spec/%s.tla" % m, "w").write(text)

            def tlc(mod, cfg, env, heap):
                cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", run.JARS, "tlc2.TLC", "-workers", "1",
                       "-metadir", w + "/md", "-noGenerateSpecTE", "-config", cfg + ".cfg", mod + ".tla"]
                try:
                    r = subprocess.run(cmd, cwd=w + "/spec", env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                except subprocess.TimeoutExpired:
                    return 99, "timeout"
                return r.returncode, r.stdout.decode("utf-8", "replace")
            for x in USES[m][0]:
                rc, o = tlc(FAMILIES[x[0]]["module"], FAMILIES[x[0]]["module"], {"TRACE": traces[x]}, "3g")
                if "Parse Error" in o or "Semantic error" in o or "Could not parse" in o or "Unknown operator" in o:
                    res["by"] = "parse"
                    return res
                if rc:
                    res["by"], res["how"] = "trace", x[0] + " (evaluation: %s)" % (re.findall(r"Error: (.*)", o) or [str(rc)])[0][:100]
                    return res
                if '"BAD ' in o:
                    res["by"], res["how"] = "trace", x[0]
                    return res
            for k in USES[m][1]:
                s = MODELS[k]
                rc, o = tlc(s["module"], s.get("cfg", s["module"]), {"POOL": w + "/pool.json"}, "3g")
                if rc:
                    res["by"], res["how"] = "model", k + " " + (re.findall(r"(Invariant \w+|Action property \w+|property \w+|Assumption|Temporal properties|Deadlock|timeout|evaluat\w+)", o) or ["?"])[0]
                    return res
            res["by"] = "nobody"
            return res
        finally:
            shutil.rmtree(w, ignore_errors=True)

    with cf.ThreadPoolExecutor(workers) as ex, open(out, "a") as fo:
        for r in ex.map(one, jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()
    shutil.rmtree(base, ignore_errors=True)


main()
