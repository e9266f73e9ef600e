#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] | replay <property id> <replay file>

Builds the property's tests from /repo's working tree and runs them with
generated inputs. Exit 0: held; 1: VIOLATION line; 2: no answer."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
LIMIT = {"quick": 700, "thorough": 3300}   # seconds for all shards
SHARDS = {"quick": 6, "thorough": 8}
# Thorough multipliers; the default is 40 times the quick number of cases.
MULT = {"quick": 5.0, "thorough": 100.0}
CFG = json.load(open(os.path.join(VERIF, "checks.json")))


def env():
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    e.update(HOME=home, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("GOCACHE", os.path.join(home, ".cache", "go-build"))
    # The module cache must be the one of the sandbox.
    for d in ("/opt/veriftools/go1.27.3/bin", "/usr/local/go/bin"):
        if os.path.isdir(d) and not shutil.which("go", path=e.get("PATH", "")):
            e["PATH"] = d + ":" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("GOMEMLIMIT", "3500MiB")
    return e


def die(msg):
    print("check error:", msg)
    sys.exit(2)


def lang():
    m = re.search(r"(?m)^go (\d+\.\d+)", open(os.path.join(REPO, "go.mod")).read())
    v = tuple(int(x) for x in (m.group(1) if m else "1.18").split("."))
    return "go%d.%d" % max(v, (1, 18))  # the tests use generics


def build(tmp, kind):
    """Returns the test binary for kind, or dies."""
    out = os.path.join(tmp, kind + ".test")
    cmd = ["go", "test", "-c", "-o", out]
    cwd = os.path.join(VERIF, "harness")
    if kind.endswith("race"):
        cmd += ["-race"]
    if kind.startswith("overlay"):  # tests compiled into /repo's render package
        src = os.path.join(VERIF, "overlay", "render")
        rep = {os.path.join(REPO, "render", f): os.path.join(src, f) for f in os.listdir(src) if f.endswith(".go")}
        core = os.path.join(tmp, "core.go")
        text = open(os.path.join(VERIF, "harness", "core_test.go")).read()
        open(core, "w").write(re.sub(r"(?m)^package harness", "package render", text, count=1))
        rep[os.path.join(REPO, "render", "verif_core_test.go")] = core
        ov = os.path.join(tmp, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        cwd = REPO
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(VERIF, "overlay", f), os.path.join(tmp, f))
        # The tests need a newer language version than /repo's go.mod names;
        # -lang keeps the semantics of the code under test.
        cmd += ["-gcflags=github.com/soypat/sdf/...=-lang=" + lang(), "-overlay", ov, "-modfile", os.path.join(tmp, "go.mod"), "./render"]
    else:
        cmd += ["."]
    p = subprocess.run(cmd, cwd=cwd, env=env(), capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        if kind.startswith("overlay"):
            ok = subprocess.run(["go", "build", "./..."], cwd=REPO, env=env(), capture_output=True)
            if ok.returncode == 0:
                # The internals moved; the black box tests still decide.
                return None
        die("build of %s failed:\n%s" % (kind, (p.stdout + p.stderr)[-4000:]))
    return out


def known_findings(pid):
    ids, path = {}, os.path.join(VERIF, "known-findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            ids[m.group(2)] = m.group(3)
    return ids


def classify(log, rc):
    if rc == 3 or "verif: cannot write stats" in log:
        return "error"
    if "signal: killed" in log or rc in (-9, 137):
        return "error"
    if "panic: test timed out" in log:
        return "timeout"
    return "violation"


def main():
    if len(sys.argv) < 2:
        die("usage: check.py ID [quick|thorough]")
    if sys.argv[1] == "replay":
        return replay(sys.argv[2], sys.argv[3])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in SHARDS:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = CFG.get(pid, {})
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run(pid, tier, seed, cfg, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, cfg, tmp, t0):
    known = known_findings(pid)
    procs = []
    kinds = cfg.get("kinds", ["main"])
    skipped = []
    mult = cfg.get(tier + "_mult", MULT[tier])
    for kind in kinds:
        binary = build(tmp, kind)
        if binary is None:
            skipped.append(kind)
            continue
        n = cfg.get("shards", {}).get(kind, SHARDS[tier])
        for sh in range(n):
            d = os.path.join(tmp, "%s-%d" % (kind, sh))
            os.makedirs(d)
            e = env()
            s = (seed * 1000003 + sh * 7919 + (0 if kind == "main" else 500009)) % (1 << 31) + 1
            e.update(VERIF_STATS=os.path.join(d, "stats.json"), VERIF_MULT=str(mult), VERIF_TIER=tier,
                     VERIF_KNOWN=",".join(known), VERIF_SHARD=str(sh), TMPDIR=d, VERIF_REPO=REPO)
            if kind.endswith("race"):
                e["VERIF_MULT"] = str(mult * 0.25)
            cmd = [binary, "-test.run", "^Test%s_" % pid, "-rapid.seed=%d" % s, "-test.timeout=%ds" % (LIMIT[tier] - 20)]
            log = open(os.path.join(d, "log"), "w")
            procs.append((kind, sh, d, cmd, subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT)))
    deadline = t0 + LIMIT[tier]
    res = []
    for kind, sh, d, cmd, p in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -99
        res.append((kind, sh, d, cmd, rc, open(os.path.join(d, "log"), errors="replace").read()))
    return report(pid, tier, seed, cfg, res, known, skipped, t0)


def report(pid, tier, seed, cfg, res, known, skipped, t0):
    ev, keys, labels, excl, rules, samples, hit = 0, set(), {}, {}, [], [], {}
    violations, errors = [], []
    for kind, sh, d, cmd, rc, log in res:
        try:
            st = json.load(open(os.path.join(d, "stats.json")))
        except Exception:
            st = None
        if st:
            ev += st["evaluations"]
            keys.update(st["keys"] or [])
            for k, v in (st["labels"] or {}).items():
                labels[k] = labels.get(k, 0) + v
            for k, v in (st["excluded"] or {}).items():
                excl[k] = excl.get(k, 0) + v
            for r in st["rules"] or []:
                if r not in rules:
                    rules.append(r)
            samples += st["samples"] or []
            for k in st["known"] or []:
                hit[k.split(" ", 1)[0]] = True
        if rc == 0:
            if st is None:
                errors.append("%s shard %d wrote no statistics" % (kind, sh))
            continue
        c = "timeout" if rc == -99 else classify(log, rc)
        if c == "violation":
            violations.append(save_replay(pid, tier, kind, sh, d, cmd, log))
        else:
            errors.append("%s shard %d: %s (rc %d)\n%s" % (kind, sh, c, rc, log[-2000:]))
    seen, picked = {}, []
    for s in samples:  # a few per test
        k = s.split(":", 1)[0]
        if seen.get(k, 0) < 2:
            seen[k] = seen.get(k, 0) + 1
            picked.append(s)
    evd = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
           "coverage": {"evaluations": ev, "distinct_nontrivial": len(keys),
                        "rule": "cases are drawn by rapid generators (seeded); non-trivial: " + " | ".join(rules),
                        "samples": picked or ["none"], "labels": labels, "excluded": excl,
                        "shards": len(res), "known_findings_reproduced": sorted(hit), "skipped_binaries": skipped},
           "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if violations:
        for first, path in violations:
            print(first)
        for _, path in violations:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if errors:
        die("\n".join(errors))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known.get(k, "")))
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, ev, len(keys), time.time() - t0))
    sys.exit(0)


def save_replay(pid, tier, kind, sh, d, cmd, log):
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s-%d.txt" % (pid, kind, sh))
    fails = glob.glob(os.path.join(d, "testdata", "rapid", "*", "*.fail"))
    with open(path, "w") as f:
        f.write("# property %s, tier %s, binary %s\n# replay: python3 /verif/check.py replay %s %s\n# command: %s\n" % (pid, tier, kind, pid, path, " ".join(cmd)))
        for fl in fails:
            test = os.path.basename(os.path.dirname(fl))
            keep = path[:-4] + "-" + test + ".fail"
            shutil.copy(fl, keep)
            f.write("# case: kind=%s test=%s file=%s\n" % (kind, test, keep))
        f.write("\n" + log[:200000])
    first = [l for l in log.splitlines() if "Failed" in l or "case:" in l or "failed after" in l or "panic" in l or "regression" in l or "_test.go:" in l]
    return ("%s shard %d: %s" % (kind, sh, "\n  ".join(x.strip()[:1500] for x in first[:4]) or log[-1500:])), path


def replay(pid, path):
    """Re-runs the shrunk cases of a replay file against the current tree."""
    cases = re.findall(r"^# case: kind=(\S+) test=(\S+) file=(\S+)", open(path).read(), re.M)
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    bad = False
    try:
        if not cases:
            m = re.search(r"^# command: \S+/(\w+)\.test (.*)$", open(path).read(), re.M)
            cases = [(m.group(1), None, m.group(2))]
        for kind, test, file in cases:
            b = build(tmp, kind)
            args = ["-test.run", "^%s$" % test, "-rapid.failfile=" + file] if test else file.split()
            e = env()
            e.update(VERIF_KNOWN=",".join(known_findings(pid)), TMPDIR=tmp, VERIF_REPO=REPO)
            p = subprocess.run([b] + args, cwd=tmp, env=e, capture_output=True, text=True)
            print((p.stdout + p.stderr)[-6000:])
            bad |= p.returncode != 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
