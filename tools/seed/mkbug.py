#!/usr/bin/env python3
"""mkbug.py FILE.bug: make one planted bug from its description (see DESIGN.md).

The description is a text file with sections '=== name' ...: id, property, needs,
breaks, one or more 'edit <file>' sections ('<<<' old '>>>' new '<<<end'), and demo
(Go test code of package zzdemo).  Everything is tried in a copy of /repo.
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
DEMO = r'''#!/bin/bash
# run in /repo: exit 0 when the demonstrated behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export HOME="${HOME:-/root}" GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/metadata/zzdemo/h_test.go":"%s/h_test.go","%s/metadata/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" "$PWD" "$here" > "$tmp/o.json"
go test -c -overlay "$tmp/o.json" -vet=off -o "$tmp/demo.test" ./metadata/zzdemo || exit 3
mkdir "$tmp/w" && cd "$tmp/w" && TMPDIR="$tmp/w" "$tmp/demo.test" -test.timeout 120s
'''


def sh(cmd, cwd, **kw):
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **kw)


def parse(p):
    secs, cur = [], None
    for line in open(p):
        m = re.match(r"=== (.*)\n", line)
        if m:
            cur = [m.group(1).strip(), ""]
            secs.append(cur)
        elif cur:
            cur[1] += line
    return secs


def stable(cwd):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if False else None
    pk = [x for x in sh(["go", "list", "./..."], cwd).stdout.split() if not x.endswith(("/fetcher", "/updater"))]
    r = sh(["go", "test", "-count=1", *pk], cwd)
    return r.returncode == 0, r.stdout


def main(p):
    s = parse(p)
    d = {k: v.strip() for k, v in s if not k.startswith("edit")}
    tmp = tempfile.mkdtemp(prefix="bug-")
    try:
        w = os.path.join(tmp, "repo")
        sh(["cp", "-a", "/repo", w], "/")
        sh(["git", "checkout", "-q", "--", "."], w)
        for k, v in s:
            if k.startswith("edit "):
                f = os.path.join(w, k[5:].strip())
                src = open(f).read()
                for m in re.finditer(r"<<<\n(.*?)\n>>>\n(.*?)<<<end\n", v, re.S):
                    old, new = m.group(1), m.group(2).rstrip("\n")
                    if src.count(old) != 1:
                        print("FAIL: old text occurs %d times in %s:\n%s" % (src.count(old), f, old))
                        return 1
                    src = src.replace(old, new)
                open(f, "w").write(src)
        r = sh(["gofmt", "-l", "metadata"], w)
        if r.stdout.strip():
            print("gofmt:", r.stdout)
            sh(["gofmt", "-w", *r.stdout.split()], w)
        diff = sh(["git", "diff"], w).stdout
        sdir = os.path.join(OUT, d["id"])
        r = sh(["go", "build", "./..."], w)
        if r.returncode:
            print("FAIL: does not build\n" + r.stdout)
            return 1
        okst, out = stable(w)
        if not okst:
            print("FAIL: stable tests fail\n" + "\n".join(x for x in out.splitlines() if "FAIL" in x))
            return 1
        stage = os.path.join(tmp, "demo")
        os.makedirs(stage)
        open(os.path.join(stage, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(stage, "demo.sh"), 0o755)
        shutil.copy(os.path.join(HERE, "h_test.go"), stage)
        open(os.path.join(stage, "demo_test.go"), "w").write(d["demo"] + "\n")
        r1 = sh(["bash", os.path.join(stage, "demo.sh")], "/repo")
        r2 = sh(["bash", os.path.join(stage, "demo.sh")], w)
        if r1.returncode or r2.returncode not in (1, 2):
            print("FAIL: demo gives %d unchanged, %d patched\n%s\n---\n%s" % (r1.returncode, r2.returncode, r1.stdout[-2500:], r2.stdout[-1500:]))
            return 1
        if "build failed" in r2.stdout or "panic: test timed out" in r2.stdout:
            print("FAIL: " + r2.stdout[-1500:])
            return 1
        shutil.rmtree(sdir, ignore_errors=True)
        os.makedirs(sdir)
        open(os.path.join(sdir, "patch.diff"), "w").write(diff)
        for f in os.listdir(stage):
            shutil.copy(os.path.join(stage, f), sdir)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(sdir, "meta.json"), "w"), indent=1)
        print("OK", d["id"], [x for x in r2.stdout.splitlines() if "demo_test" in x or "FAIL" in x][:2])
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(max(main(p) for p in sys.argv[1:]))
