#!/usr/bin/env python3
"""Creates and confirms planted changes: tools/seed.py SPEC.py...  Each spec
defines SEEDS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)], main (Go demo, package main).  A seed is only kept after it has been confirmed in a
scratch copy: the tree builds, the repository's tests pass, and the demo
succeeds without and fails with the change."""
import os, re, shutil, subprocess, sys, json, tempfile, importlib.util
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off")
DEMO = '''#!/bin/bash
# Runs the program beside this script against the module in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -f "$t/ov.json"; rmdir "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go.txt"}}' "$PWD" "$d" > "$t/ov.json"
go run -overlay "$t/ov.json" ./zzdemo
'''
def run(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
def main():
    seeds = []
    for f in sys.argv[1:]:
        spec = importlib.util.spec_from_file_location("s", f)
        mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
        seeds += mod.SEEDS
    work = tempfile.mkdtemp(prefix="seed")
    repo = work + "/repo"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    orig = run(["git", "show", "3305279:object.go"], repo)
    for s in seeds:
        print("==", s["id"], s["property"], flush=True)
        d = work + "/" + s["id"]; os.mkdir(d)
        open(d + "/demo.sh", "w").write(s.get("demo", DEMO)); os.chmod(d + "/demo.sh", 0o755)
        if "main" in s: open(d + "/main.go.txt", "w").write(s["main"])
        ok = True
        for f, old, new in s["edits"]:
            t = open(repo + "/" + f).read()
            if t.count(old) != 1:
                print("   edit of", f, "matches", t.count(old), "times:", old[:60]); ok = False; break
            base = run(["git", "show", "3305279:" + f], repo).stdout
            gone = [l for l in old.split("\n") if l.strip() and l not in new.split("\n")]
            if not any(l in base.split("\n") for l in gone):
                print("   note: no changed line of the original in", f)
            open(repo + "/" + f, "w").write(t.replace(old, new))
        if ok:
            run(["git", "checkout", "--", "."], repo) if False else None
            diff = run(["git", "diff"], repo).stdout
            b = run("go build ./... && go vet . 2>&1 | grep -v ^# | head -5", repo)
            if b.returncode: print("   does not build", b.stderr[-400:]); ok = False
        if ok:
            for attempt in range(6):
              t = run("go test -vet=off -count=1 -skip '^(TestComplex|TestReferenceSelfReferencing)$' ./... 2>&1 | grep -- '--- FAIL\\|^FAIL\\|^panic' | head", repo)
              if "TestHttpDocuments" not in t.stdout: break  # its port may be taken by another run
            if t.stdout.strip(): print("   tests fail:", t.stdout[:400]); ok = False
        if ok:
            w = run(["bash", d + "/demo.sh"], repo)
            if w.returncode == 0: print("   demo passes with the change"); ok = False
            else: print("   with:", w.returncode, (w.stdout + w.stderr).strip()[-200:].replace("\n", " | "))
        run(["git", "checkout", "--", "."], repo)
        if ok:
            for n in range(3):
                w = run(["bash", d + "/demo.sh"], repo)
                if w.returncode: print("   demo fails without the change:", (w.stdout + w.stderr)[-400:]); ok = False; break
        if ok:
            out = VERIF + "/seeded/" + s["id"]
            os.makedirs(out, exist_ok=True)
            for f in os.listdir(d): shutil.copy(d + "/" + f, out + "/" + f)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print("   kept")
    shutil.rmtree(work)
main()
