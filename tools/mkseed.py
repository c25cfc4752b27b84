#!/usr/bin/env python3
"""mkseed.py SPECS.py [id...]: makes /verif/seeded/<id>/ from specifications and confirms each one in scratch copies:
it builds, the stable tests pass, the demonstration passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile, runpy
OUT = "/verif/seeded"
PRE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_preamble.go.txt")).read()
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD%s" "$here" > "$t/o.json"
export TMPDIR=$t
go test -vet=off -count=1 %s -timeout 250s -overlay "$t/o.json" -run '^TestDemo$' .%s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", executable="/bin/bash", **k)

def tests(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh(f"sed 's#cd /repo#cd {d}#' /opt/vp/test.sh > {d}.test.sh; bash {d}.test.sh {d}.json; rm -f {d}.test.sh", d)
    res = json.load(open(d + ".json")); os.remove(d + ".json")
    return base, res

def main():
    specs = runpy.run_path(sys.argv[1])["SPECS"]
    want = sys.argv[2:]
    for s in specs:
        if want and s["id"] not in want:
            continue
        root = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        a, b = root + "/clean", root + "/bug"
        try:
            sh(f"cp -a /repo {a} && git -C {a} checkout -q -- . && cp -a {a} {b}", "/")
            ok = True
            for f, old, new in s["edits"]:
                p = f"{b}/{f}"
                t = open(p).read()
                if t.count(old) < 1 or (t.count(old) > 1 and not s.get("all")):
                    print(s["id"], "edit does not match", t.count(old), repr(old)); ok = False; break
                open(p, "w").write(t.replace(old, new))
            if not ok: continue
            sh("gofmt -w " + " ".join({e[0] for e in s["edits"]}), b, env=dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"]))
            r = sh(". /opt/vp/env.sh; go build ./... && go vet . ./crypto ./data ./id ./index ./io ./key ./log", b)
            if r.returncode: print(s["id"], "does not build:", r.stdout[-800:]); continue
            d = f"{OUT}/{s['id']}"
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(d + "/patch.diff", "w").write(sh("git diff", b).stdout)
            pkg = s.get("pkg", "")
            open(d + "/demo_test.go", "w").write(s["demo"] if "\npackage " in s["demo"] else PRE + s["demo"])
            open(d + "/demo.sh", "w").write(DEMO % ("/" + pkg if pkg else "", s.get("flags", ""), "/" + pkg if pkg else ""))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            x = sh(f"{d}/demo.sh", a); y = sh(f"{d}/demo.sh", b)
            if x.returncode: print(s["id"], "demo fails without the change:", x.stdout[-1500:]); shutil.rmtree(d); continue
            if not y.returncode or "--- FAIL" not in y.stdout and "panic:" not in y.stdout and "fatal error:" not in y.stdout and "DATA RACE" not in y.stdout: print(s["id"], "demo does not fail with the change:", y.stdout[-1500:]); shutil.rmtree(d); continue
            base, res = tests(b)
            bad = failing(base, res)
            if bad: print(s["id"], "existing tests notice:", bad[:3]); shutil.rmtree(d); continue
            print(s["id"], "ok", y.stdout.strip().splitlines()[1][:150] if len(y.stdout.splitlines()) > 1 else "")
        finally:
            shutil.rmtree(root)

def failing(base, res):
    def passed(x):
        for k in ("passed", "pass", "stable", "tests"):
            if isinstance(x, dict) and isinstance(x.get(k), list):
                return set(x[k])
        raise SystemExit("format: " + str(x)[:300])
    return sorted(passed(base) - passed(res))

if __name__ == "__main__":
    main()
