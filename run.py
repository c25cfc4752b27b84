#!/usr/bin/env python3
"""Driver of the checks: builds the harness against /repo's working tree, runs one property's tests in
parallel shards, merges their counters into evidence/<id>.json and reports violations.

  run.py <id> [--tier quick|thorough] [--replay FILE] [--seed N] [--shards N]

Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: the check itself failed."""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
RACE = {"C21"}            # also built with the race detector
YIELD = {"C19": ["io"], "C21": ["io", "index", "id", "data", "crypto", "log", ""]}   # built with scheduling points in these packages
BOLTREC = {"C20"}         # built with bbolt's file writes recorded (in a copy of that dependency)
FAULTS = {"C15", "C16", "C17", "C20"}
LIMITED = {"C28"}         # run with bounded address space: what exhausts it is a violation
FUZZ = {"C28"}            # the thorough tier adds coverage-guided fuzzing

def env():
    e = dict(os.environ)
    go = "/opt/veriftools/go1.27.3"
    if os.path.isdir(go):
        e["GOROOT"] = go
        e["PATH"] = go + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off", CGO_ENABLED="1", GOSUMDB="off")
    for k in list(e):
        if k.startswith("HX_"):
            del e[k]
    return e

class Broken(Exception):
    pass

def build(prop, scratch, e):
    mod = os.path.join(scratch, "go.mod")
    shutil.copy(os.path.join(VERIF, "harness/go.mod"), mod)
    shutil.copy(os.path.join(VERIF, "harness/go.sum"), os.path.join(scratch, "go.sum"))
    out = os.path.join(scratch, "props.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", out]
    tags = []
    if prop in RACE:
        cmd.append("-race")
    if prop in BOLTREC:
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import bolt_rec
        bolt_rec.make(scratch, e)
        tags.append("boltrec")
    if prop in YIELD:
        y = subprocess.run(["go", "run", "-modfile", mod, "./cmd/yield", scratch] + [os.path.join(REPO, d).rstrip("/") for d in YIELD[prop]],
                           cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if y.returncode != 0:
            raise Broken("inserting scheduling points failed:\n" + y.stdout[-2000:])
        cmd += ["-overlay", os.path.join(scratch, "overlay.json")]
    if tags:
        cmd += ["-tags", ",".join(tags)]
    r = subprocess.run(cmd + ["./props"], cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    if r.returncode != 0:
        raise Broken("build failed:\n" + r.stdout[-4000:])
    return out

def fuzz(prop, scratch, e, seconds, procs):
    """Coverage-guided fuzzing of the property's fuzz target. Returns (executions, output, failing input) with None when nothing fails."""
    d = os.path.join(scratch, "fuzz")
    os.mkdir(d)
    exe = os.path.join(d, "fuzz.test")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-modfile", os.path.join(scratch, "go.mod"), "-fuzz", f"^Fuzz{prop}$", "-o", exe, "./props"],
                       cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    if r.returncode != 0:
        raise Broken("build failed:\n" + r.stdout[-4000:])
    x = dict(e, HX_TMP=d, HX_DATA=os.path.join(VERIF, "harness/props/testdata"), GOMEMLIMIT="2500MiB")
    out = open(os.path.join(d, "out"), "w")
    p = subprocess.Popen([exe, "-test.run=^$", f"-test.fuzz=^Fuzz{prop}$", f"-test.fuzztime={seconds}s", "-test.fuzzminimizetime=20s", "-test.parallel=8",
                          "-test.fuzzcachedir=" + os.path.join(d, "cache")], cwd=d, env=x, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
    procs.append(p)
    try:
        p.wait(timeout=seconds + 300)
    except subprocess.TimeoutExpired:
        raise Broken("fuzzing does not end")
    text = open(os.path.join(d, "out"), errors="replace").read()
    n = [int(m) for m in re.findall(r"execs: (\d+)", text)]
    if p.returncode == 0:
        return max(n or [0]), text, None
    m = re.search(r"Failing input written to (\S+)", text)
    if not m:
        raise Broken(f"fuzzing exits {p.returncode}: ...{text[-3000:]}")
    return max(n or [0]), text, open(os.path.join(d, m.group(1))).read()

def shard_seed(seed, shard):
    h = hashlib.sha256(f"{seed}/{shard}".encode()).digest()
    return int.from_bytes(h[:7], "big") | 1

def violated(rc, text, prop=""):
    """Whether the output of a test process shows a violation; None when it shows nothing."""
    if prop in LIMITED and rc == 2 and "out of memory" in text and "/repo/" in text:
        return True
    if "HARNESS-ERROR" in text:
        return None
    if ("[rapid] panic after" in text or "[enum] panic after" in text) and "/repo/" not in text:
        return None      # a panic of the harness's own
    if "WARNING: DATA RACE" in text and "/repo/" not in text:
        return None
    if rc == 1 and "--- FAIL" in text:
        return True
    if rc == 66 or "WARNING: DATA RACE" in text:
        return True
    if prop in BOLTREC and rc == 2 and "\npanic:" in "\n" + text and "go.etcd.io/bbolt" in text:
        return True      # the database gives up on what a crash leaves behind, in a goroutine of its own
    if "test timed out" in text or "out of memory" in text or "cannot allocate" in text:
        return None
    if rc == 2 and ("\npanic:" in text or text.startswith("panic:") or "fatal error:" in text) and "/repo/" in text:
        return True
    return None

def bounded():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

def known_entries(prop):
    ids = set()
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) id=(\S+)", line)
            if m and m.group(1) == prop:
                ids.add(m.group(2))
    except FileNotFoundError:
        pass
    return ids

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    prop, start = a.property, time.time()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED") or "1")
        except ValueError:
            seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:6], "big")
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-", dir=base)
    procs = []
    def cleanup(*_):
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)
    def on_signal(*_):
        cleanup()
        os._exit(2)
    signal.signal(signal.SIGTERM, on_signal)
    signal.signal(signal.SIGINT, on_signal)
    try:
        rc = run(a, prop, seed, scratch, procs, start)
    except Broken as b:
        print(f"CHECK-ERROR property={prop} {b}")
        rc = 2
    except Exception as x:
        print(f"CHECK-ERROR property={prop} {type(x).__name__}: {x}")
        rc = 2
    finally:
        cleanup()
    sys.stdout.flush()
    os._exit(rc)

def run(a, prop, seed, scratch, procs, start):
    e = env()
    exe = build(prop, scratch, e)
    if a.replay and json.load(open(a.replay)).get("fuzz"):
        return replay_fuzz(a, prop, scratch, e, exe)
    built = time.time()
    limit = 600 if a.tier == "quick" else 4 * 3600
    shards, jobs, extra = a.shards, range(a.shards), []
    if a.replay:
        r = json.load(open(a.replay))
        shards, jobs, a.tier, seed = r["shards"], [r["shard"]], r["tier"], r["seed"]
        if r.get("failfile"):
            ff = os.path.join(scratch, "replay.fail")
            open(ff, "w").write(r["failfile"])
            extra = ["-rapid.failfile=" + ff]
        e["HX_SUB"] = r.get("sub", "")
    files = {}
    for n in jobs:
        d = os.path.join(scratch, f"s{n}")
        os.mkdir(d)
        x = dict(e, HX_TIER=a.tier, HX_SHARD=str(n), HX_SHARDS=str(shards), HX_SEED=str(shard_seed(seed, n)), HX_VSEED=str(seed), HX_TMP=d,
                 HX_STATS=os.path.join(d, "stats.json"), HX_DATA=os.path.join(VERIF, "harness/props/testdata"))
        if prop in RACE:
            x["GORACE"] = "halt_on_error=0 exitcode=66 history_size=3"
        x.setdefault("GOMEMLIMIT", "2500MiB")
        cmd = [exe, f"-test.run=^Test{prop}$", f"-test.timeout={limit + 60}s", f"-rapid.seed={shard_seed(seed, n)}", "-rapid.shrinktime=8s", *extra]
        f = open(os.path.join(d, "out"), "w")
        p = subprocess.Popen(cmd, cwd=d, env=x, stdout=f, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=bounded if prop in LIMITED else None)
        procs.append(p)
        files[p] = (n, d)
    deadline = time.time() + limit
    live, failed = list(procs), []
    stop_at = None
    while live:
        for p in list(live):
            if p.poll() is not None:
                live.remove(p)
                if p.returncode != 0:
                    failed.append(p)
                    if stop_at is None:
                        stop_at = time.time() + 15
        if live and (time.time() > deadline or (stop_at and time.time() > stop_at)):
            for p in live:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            break
        time.sleep(0.02)
    timed_out = bool(live) and stop_at is None
    known, bad, errors = {}, [], []
    allowed = known_entries(prop)
    for p in procs:
        n, d = files[p]
        text = open(os.path.join(d, "out"), errors="replace").read()
        if a.verbose or a.replay:
            sys.stdout.write(text[-20000:])
        for m in re.finditer(r"^HX-KNOWN property=(\S+) id=(\S+) (.*)$", text, re.M):
            if m.group(1) == prop and m.group(2) in allowed:
                known[m.group(2)] = m.group(3)
            else:
                bad.append((n, d, text, "unlisted finding " + m.group(0)))
        if p in failed:
            v = violated(p.returncode, text, prop)
            if v:
                bad.append((n, d, text, None))
            else:
                errors.append(f"shard {n} exits {p.returncode}: ...{text[-3000:]}")
        elif p.returncode == 0 and "\nPASS" not in "\n" + text:
            errors.append(f"shard {n} did not pass: {text[-500:]}")
    if not bad:
        if timed_out:
            raise Broken(f"time limit of {limit} s reached")
        if errors:
            raise Broken(errors[0])
    fuzzed = None
    if prop in FUZZ and a.tier == "thorough" and not a.replay and not bad:
        fuzzed = fuzz(prop, scratch, e, 900, procs)
    evidence(a, prop, seed, [files[p][1] for p in procs if p in files], start, built, len(bad) + (fuzzed is not None and fuzzed[2] is not None), fuzzed)
    if fuzzed and fuzzed[2]:
        path = os.path.join(VERIF, "replays", f"{prop}-fuzz.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump({"property": prop, "fuzz": fuzzed[2], "how": f"python3 run.py {prop} --replay {path}", "output": fuzzed[1][-20000:]}, open(path, "w"), indent=1)
        print(fuzzed[1][-6000:])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for i, w in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {i}: {w}")
    if bad:
        n, d, text, why = bad[0]
        print(report(text, why))
        if not a.replay:
            path = save(prop, a.tier, seed, shards, n, d, text)
        else:
            path = a.replay
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0

def replay_fuzz(a, prop, scratch, e, exe):
    d = os.path.join(scratch, "replay", "testdata", "fuzz", "Fuzz" + prop)
    os.makedirs(d)
    open(os.path.join(d, "replay"), "w").write(json.load(open(a.replay))["fuzz"])
    w = os.path.join(scratch, "replay")
    r = subprocess.run([exe, f"-test.run=^Fuzz{prop}$/^replay$", "-test.timeout=600s"], cwd=w, env=dict(e, HX_TMP=w, HX_DATA=os.path.join(VERIF, "harness/props/testdata")),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sys.stdout.write(r.stdout[-20000:])
    if r.returncode == 0:
        return 0
    if violated(r.returncode, r.stdout, prop) or "--- FAIL" in r.stdout:
        print(f"VIOLATION property={prop} replay={a.replay}")
        return 1
    raise Broken(f"replay exits {r.returncode}")

def report(text, why):
    if why:
        return why
    lines = [l for l in text.splitlines() if "[rapid] draw" not in l]
    return "\n".join(l[:600] for l in lines[:60])

def save(prop, tier, seed, shards, n, d, text):
    out = os.path.join(VERIF, "replays")
    os.makedirs(out, exist_ok=True)
    sub, fail = "", None
    m = re.search(r"--- FAIL: Test\w+?/(\S+)", text)
    if m:
        sub = m.group(1).split("/")[0]
    m = re.search(r'-rapid\.failfile="([^"]+)"', text)
    if m and os.path.exists(os.path.join(d, m.group(1))):
        fail = open(os.path.join(d, m.group(1))).read()
        s = re.search(r'-run="Test\w+/([^"/]+)"', text)
        if s:
            sub = s.group(1)
    path = os.path.join(out, f"{prop}-{tier}-{seed}.json")
    json.dump({"property": prop, "tier": tier, "seed": seed, "shards": shards, "shard": n, "sub": sub, "failfile": fail,
               "how": f"python3 run.py {prop} --replay {path}", "output": text[:20000]}, open(path, "w"), indent=1)
    return path

def evidence(a, prop, seed, dirs, start, built, nbad, fuzzed=None):
    subs = {}
    for d in dirs:
        try:
            st = json.load(open(os.path.join(d, "stats.json")))
        except (OSError, ValueError):
            continue
        for name, s in st["subs"].items():
            t = subs.setdefault(name, {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "hashes": set(), "rule": s["rule"], "exhaustive": s.get("exhaustive", False)})
            t["evaluations"] += s["evaluations"]
            t["nontrivial"] += s["nontrivial"]
            t["hashes"].update(s["hashes"] or [])
            for l, n in (s["labels"] or {}).items():
                t["labels"][l] = t["labels"].get(l, 0) + n
            if len(t["samples"]) < 2:
                t["samples"] += (s["samples"] or [])[:2 - len(t["samples"])]
    cov = {
        "evaluations": sum(s["evaluations"] for s in subs.values()),
        "distinct_nontrivial": sum(len(s["hashes"]) for s in subs.values()),
        "rule": " | ".join(f"{n}: {s['rule']}" for n, s in sorted(subs.items())),
        "samples": [f"{n}: {x}" for n, s in sorted(subs.items()) for x in s["samples"]] or ["(none)"],
        "per_check": {n: {"evaluations": s["evaluations"], "nontrivial": s["nontrivial"], "distinct_nontrivial": len(s["hashes"]), "labels": dict(sorted(s["labels"].items())), "enumerated_completely": s["exhaustive"]} for n, s in sorted(subs.items())},
        "build_s": round(built - start, 2),
    }
    if fuzzed:
        cov["coverage_guided_executions"] = fuzzed[0]
    if subs and all(s["exhaustive"] for s in subs.values()):
        cov["exhaustive"] = True
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": a.tier, "seed": seed, "level": "fault_enumeration" if prop in FAULTS else "exploration",
               "coverage": cov, "assumptions": assumptions(prop), "wall_s": round(time.time() - start, 2), "violations": nbad},
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

def assumptions(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        return [c["level_note"] for c in m["checks"] if c["property"] == prop]
    except (OSError, ValueError, KeyError):
        return []

if __name__ == "__main__":
    main()
