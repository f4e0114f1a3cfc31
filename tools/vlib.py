"""Build, run, merge, report."""
import fcntl, hashlib, json, os, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))
OUT = os.path.join(VERIF, "out")
PROFILES = ["checked", "release"]
STUCK = 142  # the harness ended itself: a case did not return
# seconds of coverage- and comparison-guided search
GUIDED = {"quick": 20, "thorough": 1500}
TRIPLE = "x86_64-unknown-linux-gnu"
RUN_LIMIT = {"quick": 700, "thorough": 6 * 3600}


class Undecided(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        HOME=os.environ.get("HOME", "/root"),
        PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
    )
    return e


def repo_digest():
    """Contents of everything in /repo that a build reads (mtimes are not trusted)."""
    h = hashlib.sha256()
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".h", ".txt", ".json", ".lock")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
                h.update(b"\0")
    return h.hexdigest()


def drop_stale(target, digest):
    """Make cargo rebuild the library whenever its contents changed since the last build."""
    stamp = os.path.join(target, "repo.stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old == digest:
        return
    for d, dirs, files in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for x in list(dirs):
                if x.startswith("libsecp256k1"):
                    p = os.path.join(d, x)
                    for f in os.listdir(p):
                        os.unlink(os.path.join(p, f))
            dirs[:] = []
    os.makedirs(target, exist_ok=True)
    open(stamp, "w").write(digest)


def cargo(args, cwd, target, log, extra=None):
    e = env()
    e["CARGO_TARGET_DIR"] = target
    e.update(extra or {})
    t = time.time()
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    with open(log, "a") as f:
        f.write("$ cargo %s (in %s, %.1f s, exit %d)\n%s\n" % (
            " ".join(args), cwd, time.time() - t, p.returncode, p.stdout))
    return p.returncode, p.stdout


def build_one(p, log):
    """One build of the harness; "guided" has callbacks at the library's branches and comparisons."""
    args, target, extra = ["build", "--offline", "--locked", "--profile", p], TARGET, None
    if p == "guided":
        target = os.path.join(TARGET, "guided")
        os.makedirs(target, exist_ok=True)
        obj = os.path.join(target, "cov.o")
        c = subprocess.run(["gcc", "-O2", "-c", "-o", obj, os.path.join(VERIF, "tools", "cov.c")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if c.returncode != 0:
            return None, c.stdout
        extra = {"RUSTC_WRAPPER": os.path.join(VERIF, "tools", "rustc_cov"), "VH_COV_OBJ": obj}
        args = ["build", "--offline", "--locked", "--profile", "guided", "--features", "guided",
                "--target", TRIPLE]
    try:
        rc, out = cargo(args, os.path.join(VERIF, "harness"), target, log, extra)
    except subprocess.TimeoutExpired:
        return None, "timed out"
    if rc != 0:
        return None, out[-4000:]
    if p == "guided":
        return os.path.join(target, TRIPLE, "guided", "vh"), ""
    return os.path.join(target, p, "vh"), ""


def build(profiles=PROFILES, optional=()):
    """Binaries by profile; one of `optional` is None when it cannot be built."""
    os.makedirs(OUT, exist_ok=True)
    log = os.path.join(OUT, "build.log")
    open(log, "w").close()
    got = {}
    with open(os.path.join(OUT, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drop_stale(TARGET, repo_digest())
        ts = [threading.Thread(target=lambda p=p: got.update({p: build_one(p, log)}))
              for p in list(profiles) + list(optional)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for p in profiles:
        if p not in got or got[p][0] is None:
            raise Undecided("the harness does not build against %s (%s):\n%s" % (
                REPO, p, got.get(p, ("", ""))[1]))
    return {p: got[p][0] if p in got else None for p in list(profiles) + list(optional)}


def run_part(exe, prop, tier, profile, seed, scale, extra=(), limit=None, journal=None):
    os.makedirs(OUT, exist_ok=True)
    part = os.path.join(OUT, "%s.%s.json" % (prop, profile))
    for s in ("", ".hashes", ".trace"):
        if os.path.exists(part + s):
            os.unlink(part + s)
    e = env()
    if journal:
        e["VH_JOURNAL"] = journal
    cmd = [exe, "run", prop, "--tier", tier, "--profile", profile, "--seed", str(seed),
           "--scale", scale, "--out", part] + list(extra)
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        raise Undecided("%s (%s) did not finish within %d s" % (prop, profile, limit))
    if p.returncode < 0 or p.returncode >= 128:
        return p.returncode, None, p.stdout
    if p.returncode not in (0, 1) or not os.path.exists(part):
        raise Undecided("harness failure in %s (%s), exit %d:\n%s" % (
            prop, profile, p.returncode, p.stdout[-3000:]))
    return p.returncode, json.load(open(part)), p.stdout


def hashes(prop, profile, suffix):
    b = open(os.path.join(OUT, "%s.%s.json%s" % (prop, profile, suffix)), "rb").read()
    return struct.unpack("<%dQ" % (len(b) // 8), b)


def write_replay(prop, obj):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(obj, indent=1, sort_keys=True)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(body.encode()).hexdigest()[:12]))
    open(p, "w").write(body + "\n")
    return p


def journal():
    """Where the harness writes each case before running it."""
    j = os.path.join(OUT, "journal")
    os.makedirs(j, exist_ok=True)
    for f in os.listdir(j):
        os.unlink(os.path.join(j, f))
    return j


def crash_case(exe, prop, j):
    """The harness died from a signal: find the case in the journal that kills it."""
    for f in sorted(os.listdir(j)):
        try:
            v = json.load(open(os.path.join(j, f)))
        except ValueError:
            continue
        v.update(property=prop)
        r = os.path.join(OUT, "crash.json")
        json.dump(v, open(r, "w"))
        try:
            p = subprocess.run([exe, "replay", r], env=env(), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode == STUCK:
            v["reason"] = "the case does not return (over 60 s)"
            return v
        if p.returncode < 0 or p.returncode >= 128:
            v["reason"] = "the process is killed (exit %d)" % p.returncode
            return v
    return None


def reproduces(exes, violation):
    """The build in which a case of the guided search fails: it has properties of both."""
    r = os.path.join(OUT, "guided.json")
    for prof in PROFILES:
        json.dump(dict(violation, profile=prof), open(r, "w"))
        try:
            p = subprocess.run([exes[prof], "replay", r], env=env(), stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode != 0:
            return prof
    return "checked"


def run(prop, tier, seed, scale):
    t0 = time.time()
    if prop == "C24":
        import features
        return features.run(tier, seed, t0)
    if prop in ("C28", "C29"):
        import platforms
        return platforms.run(prop, tier, seed, t0, float(scale))
    exes = build(optional=["guided"])
    limit = RUN_LIMIT.get(tier, 700)
    parts, violation = [], None
    for prof in PROFILES:
        left = max(30, limit - (time.time() - t0))
        rc, part, out = run_part(exes[prof], prop, tier, prof, seed, scale, limit=left)
        if part is None:
            j = journal()
            run_part(exes[prof], prop, tier, prof, seed, scale, limit=left, journal=j)
            violation = crash_case(exes[prof], prop, j)
            if violation:
                violation["profile"] = prof
            else:
                raise Undecided("the harness was killed (exit %d):\n%s" % (rc, out[-3000:]))
            break
        parts.append(part)
        if part["violation"]:
            violation = part["violation"]
            break
    compared = 0
    if violation is None:
        ta, tb = (hashes(prop, p, ".trace") for p in PROFILES)
        if len(ta) != len(tb):
            raise Undecided("the two builds ran different cases (%d, %d)" % (len(ta), len(tb)))
        compared = len(ta)
        for i, (x, y) in enumerate(zip(ta, tb)):
            if x != y:
                rc, part, out = run_part(exes["checked"], prop, tier, "checked", seed, scale,
                                         ["--find", str(x)], limit=limit)
                if part and part.get("found"):
                    violation = dict(part["found"], property=prop, profile="differential",
                                     reason="the debug-checked and the release build disagree")
                else:
                    raise Undecided("transcripts differ at case %d but it was not found" % i)
                break
    if violation is None and exes["guided"]:
        extra = ["--guided", str(GUIDED.get(tier, 20))]
        left = max(60, limit - (time.time() - t0))
        rc, part, out = run_part(exes["guided"], prop, tier, "guided", seed, scale, extra, limit=left,
                                 journal=journal())
        if part is None:
            violation = crash_case(exes["guided"], prop, os.path.join(OUT, "journal"))
            if violation is None:
                raise Undecided("the guided search was killed (exit %d):\n%s" % (rc, out[-3000:]))
        else:
            parts.append(part)
            violation = part["violation"]
        if violation:
            violation["profile"] = reproduces(exes, violation)
    ev = evidence(prop, tier, seed, parts, violation, compared, time.time() - t0)
    return report(prop, ev, violation)


def evidence(prop, tier, seed, parts, violation, compared, wall):
    distinct, labels, groups, samples = set(), {}, {}, []
    for p in parts:
        distinct.update(hashes(prop, p["profile"], ".hashes"))
        for k, v in p["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in p["groups"].items():
            groups[k] = groups.get(k, 0) + v
        samples += p["samples"]
    cov = {
        "evaluations": sum(p["evaluations"] for p in parts),
        "distinct_nontrivial": len(distinct),
        "rule": parts[0]["rule"] if parts else "",
        "samples": samples[:12],
        "groups": groups,
        "labels": labels,
        "builds": [p["profile"] for p in parts],
    }
    for p in parts:
        if p["profile"] == "guided":
            cov["guided_search"] = {"cases": p["evaluations"], "places_reached": p["places_reached"]}
    if compared:
        cov["transcripts_compared_between_builds"] = compared
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "the reference model in harness/src/refm.rs (checked against the C library by `vh selftest`)",
            "rustc, and proptest's random source",
        ],
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return ev


def report(prop, ev, violation):
    c = ev["coverage"]
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    if violation:
        p = write_replay(prop, violation)
        print("reason: %s" % violation.get("reason"))
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        return 1
    return 0


def replay(path):
    v = json.load(open(path))
    if v["property"] == "C24":
        import features
        return features.replay(v)
    if v["property"] in ("C28", "C29"):
        import platforms
        return platforms.replay(v)
    exes = build()
    if v.get("profile") == "differential":
        tr = []
        for prof in PROFILES:
            p = subprocess.run([exes[prof], "replay", path], env=env(), stdout=subprocess.PIPE, text=True)
            print(prof, p.stdout.strip())
            tr.append([l for l in p.stdout.splitlines() if l.startswith("TRACE")])
        bad = tr[0] != tr[1]
    else:
        p = subprocess.run([exes[v.get("profile", "checked")], "replay", path], env=env(),
                           stdout=subprocess.PIPE, text=True)
        print(p.stdout.strip(), "(exit %d)" % p.returncode)
        if p.returncode == 2:
            return 2
        bad = p.returncode != 0
    if bad:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
    return 1 if bad else 0
