#!/usr/bin/env python3
"""check.py ID: decide one property of /repo by generated-input search.

Builds the harness against /repo's current working tree, runs its sub-checks in
parallel shards seeded from VERIF_SEED, confirms any failure in a fresh process,
and writes evidence/<ID>.json. Exit 0: held on everything explored. Exit 1 with a
VIOLATION line: broken. Any other exit: the check itself could not answer."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ["VERIF_DEV_REPO"] + ".verif" if os.environ.get("VERIF_DEV_REPO") else HERE
SHARDS = 8
RACE = {"C16"}  # properties whose harness is built with the race detector


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
             GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="single")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e


def build(tmp, race):
    src = os.path.join(tmp, "src")
    shutil.copytree(os.path.join(HERE, "harness"), src)  # the build never writes in /verif
    dev = os.environ.get("VERIF_DEV_REPO")  # for trying planted bugs in a copy, never set by the registered commands
    if dev:
        with open(os.path.join(src, "go.mod")) as f:
            mod = f.read()
        with open(os.path.join(src, "go.mod"), "w") as f:
            f.write(mod.replace("=> /repo", "=> " + dev))
    exe = os.path.join(tmp, "harness")
    cmd = ["go", "build", "-buildvcs=false", "-o", exe]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + ["."], cwd=src, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    return exe


def run_shards(exe, tmp, pid, tier, seed, scale, only, shards, tag=""):
    budget = "600s" if tier == "quick" else "5400s"
    procs = []
    for i in shards:
        out = os.path.join(tmp, f"out{tag}.{i}.json")
        trace = os.path.join(tmp, f"trace{tag}.{i}")
        err = open(os.path.join(tmp, f"err{tag}.{i}"), "w")
        cmd = [exe, "run", "-prop", pid, "-tier", tier, "-seed", str(seed), "-shard", str(i),
               "-shards", str(SHARDS), "-out", out, "-trace", trace, "-budget", budget, "-scale", str(scale)]
        if only:
            cmd += ["-sub", only]
        procs.append((i, out, trace, err, subprocess.Popen(cmd, env=env(), cwd=tmp, stdout=err, stderr=err)))
    res = []
    for i, out, trace, err, p in procs:
        rc = p.wait()
        err.close()
        data = None
        try:
            with open(out) as f:
                data = json.load(f)
        except Exception:
            pass
        res.append(dict(shard=i, rc=rc, data=data, trace=trace, err=err.name))
    return res


def read_trace(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        hdr, rest = b.split(b"\n", 1)
        n, sub = hdr.decode().split(" ", 1)
        n = int(n)
        if n < 0:
            return None
        return sub, json.loads(rest[:n])
    except Exception:
        return None


def tail(path, n=30):
    try:
        with open(path, errors="replace") as f:
            return "".join(f.readlines()[:n])
    except Exception:
        return ""


def replay(exe, tmp, path):
    """Run a saved case in a fresh process; return (failed, output)."""
    try:
        r = subprocess.run([exe, "replay", path], env=env(), cwd=tmp, capture_output=True, text=True,
                           errors="replace", timeout=400)
    except subprocess.TimeoutExpired:
        return True, "replay did not finish"
    out = r.stdout + r.stderr
    return r.returncode != 0, out


def known_findings(pid):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid:
                    out.append(m.group(2))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?", default="")
    ap.add_argument("--setup", action="store_true", help="only build, to warm the build cache")
    ap.add_argument("--sub", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay", default="", help="re-run one saved case")
    a = ap.parse_args()
    pid = a.id
    if a.setup:
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            build(tmp, False)
            shutil.rmtree(os.path.join(tmp, "src"))
            build(tmp, True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("built")
        return 0
    if not re.fullmatch(r"[A-Z][0-9]{2,3}", pid):
        ap.error("which property?")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seed &= (1 << 62) - 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-")
    rc = 2
    try:
        exe = build(tmp, pid in RACE)
        if a.replay:
            failed, out = replay(exe, tmp, os.path.abspath(a.replay))
            print(out)
            if failed:
                print(f"VIOLATION property={pid} replay={os.path.abspath(a.replay)}")
            return 1 if failed else 0
        rc = decide(exe, tmp, pid, tier, seed, a, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def save_failure(f):
    d = os.path.join(OUT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    b = json.dumps(f, indent=1)
    h = hashlib.sha256(b.encode()).hexdigest()[:10]
    path = os.path.join(d, f"{f['property']}-{f['sub']}-{h}.json")
    with open(path, "w") as fh:
        fh.write(b + "\n")
    return path


def decide(exe, tmp, pid, tier, seed, a, t0):
    res = run_shards(exe, tmp, pid, tier, seed, a.scale, a.sub, range(SHARDS))
    problems, violations = [], []
    for r in res:
        d = r["data"]
        if d is None or not d.get("done"):
            tr = read_trace(r["trace"])
            msg = tail(r["err"])
            if tr is None:
                problems.append(f"shard {r['shard']} ended with {r['rc']} and no trace: {msg}")
                continue
            f = dict(property=pid, sub=tr[0], case=tr[1], error=f"process ended with code {r['rc']}:\n{msg}",
                     shard=r["shard"], shards=SHARDS, seed=seed, tier=tier)
            violations.append((f, True))
            continue
        for f in d["failures"] or []:
            violations.append((f, False))
        for name, st in d["stats"].items():
            if st.get("invalid"):
                problems.append(f"{name}: generator: {st['invalid']}")
    confirmed = []
    seen_sub = set()
    for f, crashed in sorted(violations, key=lambda v: len(json.dumps(v[0]["case"]))):
        if f["sub"] in seen_sub and confirmed:
            continue
        path = save_failure(f)
        failed, out = replay(exe, tmp, path)
        if failed:
            confirmed.append((f, path, out))
            seen_sub.add(f["sub"])
            continue
        # The case alone passes: the failure depends on what ran before it in the
        # same process. Re-run that shard from a fresh process, same seed.
        again = run_shards(exe, tmp, pid, tier, seed, a.scale, a.sub, [f["shard"]], tag="r")[0]
        d = again["data"]
        if (d is None or not d.get("done")) and crashed or (d and any(x["sub"] == f["sub"] for x in d["failures"] or [])):
            f["note"] = "depends on the history of the shard: re-run with the same seed and shard"
            os.unlink(path)
            path = save_failure(f)
            confirmed.append((f, path, f["error"]))
            seen_sub.add(f["sub"])
        else:
            problems.append(f"{f['sub']}: a failure did not reproduce: {f['error'][:400]}")
    write_evidence(pid, tier, seed, res, confirmed, time.time() - t0)
    if confirmed:
        for f, path, out in confirmed:
            print(f"--- {pid}/{f['sub']}")
            print(out.strip()[:3000])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if problems:
        for p in problems:
            print("ERROR:", p)
        return 2
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k}")
    with open(os.path.join(OUT, "evidence", pid + ".json")) as f:
        c = json.load(f)["coverage"]
    print(f"{pid}: held on {c['evaluations']} generated cases, {c['distinct_nontrivial']} distinct non-trivial ({time.time()-t0:.1f}s)")
    return 0


def write_evidence(pid, tier, seed, res, confirmed, wall):
    subs = {}
    for r in res:
        d = r["data"]
        if not d:
            continue
        for name, st in d["stats"].items():
            s = subs.setdefault(name, dict(evaluations=0, skipped=0, nontrivial=0, hashes=set(), labels={}, samples=[],
                                           rule=st["rule"], truncated=False))
            s["evaluations"] += st["evaluations"]
            s["skipped"] += st["skipped"]
            s["nontrivial"] += st["nontrivial"]
            s["hashes"].update(st["hashes"] or [])
            s["truncated"] |= st["truncated"]
            for k, v in (st["labels"] or {}).items():
                s["labels"][k] = s["labels"].get(k, 0) + v
            s["samples"] += (st["samples"] or [])[:2]
    cov = dict(
        evaluations=sum(s["evaluations"] for s in subs.values()),
        distinct_nontrivial=sum(len(s["hashes"]) for s in subs.values()),
        rule="; ".join(f"{n}: {s['rule']}" for n, s in subs.items()) or "no case completed",
        samples=[x for s in subs.values() for x in s["samples"][:4]][:16] or ["none"],
        sub_checks={n: dict(evaluations=s["evaluations"], skipped=s["skipped"], nontrivial=s["nontrivial"],
                            distinct_nontrivial=len(s["hashes"]), truncated=s["truncated"],
                            labels=dict(sorted(s["labels"].items()))) for n, s in subs.items()},
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2),
              violations=len(confirmed))
    if confirmed:
        cov["violating_cases"] = [dict(sub=f["sub"], replay=p, error=f["error"][:500]) for f, p, _ in confirmed]
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    path = os.path.join(OUT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
