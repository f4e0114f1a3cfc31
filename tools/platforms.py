"""C28: other pointer widths and byte orders.  C29: no undefined behaviour.

The probe executes generated operations (harness `vectors`: lines with the reference
model's answers)
  C28: as a native 32-bit program, and interpreted for a big-endian target (Miri);
  C29: under AddressSanitizer (with checked unsafe preconditions), MemorySanitizer,
       ThreadSanitizer (several threads, static and lazy contexts), and in Miri.
An answer that is not the model's, an abnormal end or a sanitizer report is a violation."""
import concurrent.futures, fcntl, json, os, re, subprocess, threading, time
import features, vlib

NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"
I686 = "i686-unknown-linux-gnu"
BIG = "s390x-unknown-linux-gnu"
STD = "std,hmac,static-context"
LAZY = "std,hmac,lazy-static-context"
WORKERS = max(2, min(8, os.cpu_count() or 2))
PROBE = os.path.join(vlib.VERIF, "probe")
PROBE32 = os.path.join(vlib.VERIF, "probe32")

# how many operations each build gets, and for how long an interpreter may go on
COUNT = {
    "quick": {"native": 20000, "asan": 20000, "msan": 12000, "tsan": 1500, "miri": 1200, "cap": 110},
    "thorough": {"native": 1000000, "asan": 500000, "msan": 200000, "tsan": 60000, "miri": 40000, "cap": 4000},
}
SANITIZERS = {
    # name: (target directory, rustflags, cargo arguments, features)
    "asan": ("asan", "-Zsanitizer=address -Zub-checks=yes", [], STD),
    "msan": ("msan", "-Zsanitizer=memory -Zsanitizer-memory-track-origins", ["-Zbuild-std"], STD),
    "tsan": ("tsan", "-Zsanitizer=thread", ["-Zbuild-std"], STD),
    "tsan-lazy": ("tsan", "-Zsanitizer=thread", ["-Zbuild-std"], LAZY),
}
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0",
    "MSAN_OPTIONS": "exitcode=77:abort_on_error=0",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:second_deadlock_stack=1",
}


def log():
    return os.path.join(vlib.OUT, "build.log")


def tdir(name):
    d = os.path.join(vlib.TARGET, name)
    vlib.drop_stale(d, vlib.repo_digest())
    return d


def nightly(args, cwd, target, extra=None):
    e = {"RUSTUP_TOOLCHAIN": NIGHTLY}
    e.update(extra or {})
    rc, out = vlib.cargo(args, cwd, target, log(), e)
    return rc, out


class Broken(Exception):
    """The library itself does not compile for a target."""
    def __init__(self, config, errors):
        self.config, self.errors = config, errors


def must(rc, out, what, config=None):
    if rc != 0:
        errs = [l for l in out.splitlines() if l.startswith("error")]
        if config and re.search(r"could not compile `libsecp256k1(-core)?`", out):
            raise Broken(config, " / ".join(errs[:3]))
        raise vlib.Undecided("%s does not build:\n%s" % (what, out[-3000:]))


def build32(profile):
    t = tdir("p32")
    flags = ("-Clink-arg=-nostartfiles -Clink-arg=-nostdlib -Clink-arg=-static "
             "-Crelocation-model=static -Clink-arg=-no-pie")
    rc, out = nightly(["build", "--offline", "--locked", "--profile", profile, "--target", I686,
                       "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem"],
                      PROBE32, t, {"RUSTFLAGS": flags})
    must(rc, out, "the 32-bit probe", "i686 " + profile)
    return os.path.join(t, I686, profile, "probe32")


def build_san(name):
    d, flags, args, feats = SANITIZERS[name]
    t = tdir(d)
    rc, out = nightly(["build", "--offline", "--locked", "--release", "--features", feats,
                       "--target", HOST] + args, PROBE, t, {"RUSTFLAGS": flags})
    must(rc, out, "the probe (%s)" % name)
    exe = os.path.join(vlib.OUT, "probe", "probe-" + name)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    subprocess.run(["cp", "-p", os.path.join(t, HOST, "release", "probe"), exe + ".new"], check=True)
    os.rename(exe + ".new", exe)
    return exe


def miri_env(target):
    return {
        "MIRI_SYSROOT": os.path.join(vlib.TARGET, "miri-sysroot", target),
        # undefined behaviour is C29's business, on the host
        "MIRIFLAGS": "-Zmiri-disable-isolation" + (
            "" if target == HOST else " -Zmiri-disable-validation -Zmiri-disable-stacked-borrows"),
    }


def miri_args(target):
    return ["miri", "run", "--offline", "--locked", "--release", "--features", STD, "--target", target]


def build_miri(target):
    e = miri_env(target)
    done = e["MIRI_SYSROOT"] + ".done"
    if not os.path.exists(done):
        rc, out = nightly(["miri", "setup", "--target", target], PROBE, vlib.TARGET + "/miri-setup", e)
        must(rc, out, "Miri's standard library for " + target)
        open(done, "w").close()
    rc, out = nightly(miri_args(target), PROBE, tdir("miri"), e)  # no input: builds, does nothing
    must(rc, out, "the probe for Miri, " + target, "s390x (Miri)" if target == BIG else None)


def setup():
    """everything that does not depend on /repo's contents gets built once, here"""
    os.makedirs(vlib.OUT, exist_ok=True)
    jobs = [lambda: (build32("release"), build32("checked")),
            lambda: build_san("asan"), lambda: build_san("msan"),
            lambda: (build_san("tsan"), build_san("tsan-lazy")),
            lambda: (build_miri(HOST), build_miri(BIG))]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()


def feed(cmd, cwd, lines, limit, extra):
    """Runs `cmd` on the lines: (answers, exit code or None when time was up, messages)."""
    e = vlib.env()
    e.update(SAN_ENV)
    e.update(extra)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    up = []

    def end():
        up.append(1)
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
    timer = threading.Timer(limit, end)
    timer.start()
    try:
        out, err = p.communicate("".join(l + "\n" for l in lines))
    finally:
        timer.cancel()
    got = out.splitlines()
    if out and not out.endswith("\n"):
        got.pop()
    return got, None if up else p.returncode, err


def why(err):
    for pat in (r"^SUMMARY: .*", r"^error: Undefined Behavior: .*", r"^error: .*", r"unsafe precondition.*",
                r"^WARNING: \w+Sanitizer: .*", r"^==\d+==ERROR: .*"):
        m = re.search(pat, err, re.M)
        if m:
            return m.group(0)
    return err.strip().splitlines()[-1] if err.strip() else "no message"


def infrastructure(err):
    return re.search(r"unexpected memory mapping|FATAL: \w+Sanitizer|failed to (allocate|intercept|map)"
                     r"|unsupported operation|Blocking waiting|could not (compile|execute)"
                     r"|ReserveShadowMemoryRange", err) and not re.search(r"Undefined Behavior|^SUMMARY", err, re.M)


class Job:
    """One process: a build of the probe and its share of the operations."""
    def __init__(self, config, cmd, cwd, idx, limit, threads=0, extra=None, capped=False):
        self.config, self.cmd, self.cwd, self.idx = config, cmd, cwd, idx
        self.limit, self.threads, self.extra, self.capped = limit, threads, extra or {}, capped
        self.done, self.bad, self.unavailable = [], None, None

    def go(self, lines):
        return feed(self.cmd, self.cwd, lines, self.limit, self.extra)

    def run(self, lines, want):
        mine = [lines[i] for i in self.idx]
        for attempt in range(3):
            got, rc, err = self.go(mine)
            if rc in (0, None) or not infrastructure(err):
                break
        else:
            self.unavailable = why(err)
            return self
        for k, g in enumerate(got):
            i = self.idx[k]
            if g == "n/a":
                continue
            if not features.accepts(want[i], g):
                self.bad = {"ops": mine if self.threads else [lines[i]], "wants": [want[i]],
                            "got": g, "op": lines[i], "want": want[i]}
                if not self.threads:
                    self.alone(mine, k, want[i])
                return self
            self.done.append(i)
        if rc is None:
            if not self.capped:
                raise vlib.Undecided("%s: not finished after %d s" % (self.config, self.limit))
        elif rc != 0:
            k = len(got)
            op = mine[k] if k < len(mine) else "(end)"
            self.bad = {"ops": mine if self.threads or k >= len(mine) else [op], "got": "exit %d" % rc,
                        "op": op if not self.threads else "%d operations on %d threads" % (len(mine), self.threads),
                        "want": want[self.idx[k]] if k < len(mine) else "normal end", "message": why(err)}
            if not self.threads and k < len(mine):
                self.alone(mine, k, None)
        return self

    def alone(self, mine, k, want):
        """does the operation do it by itself?  Otherwise the ones before it are needed."""
        got, rc, err = self.go([mine[k]])
        if rc in (0, None) and (want is None or not got or features.accepts(want, got[0])):
            self.bad["ops"] = mine[:k + 1]

    def shrink(self):
        """threads: the fewest operations that still show it"""
        ops = self.bad["ops"]
        names = sorted(set(l.split(" ")[0] for l in ops))
        for n in names:
            some = [l for l in ops if l.split(" ")[0] == n][:12]
            for _ in range(2):
                got, rc, err = self.go(some)
                if rc not in (0, None) or any(g.startswith("differs") for g in got):
                    self.bad["ops"] = some
                    return


def plan(prop, tier, scale, lines):
    c = COUNT.get(tier, COUNT["quick"])
    n = lambda k: max(8, int(c[k] * scale))
    jobs, cap = [], c["cap"]
    whole = 700 if tier == "quick" else 5 * 3600
    share = lambda idx, k: [idx[i::k] for i in range(k)]
    if prop == "C28":
        for prof in ("release", "checked"):
            exe = build32(prof)
            for part in share(range(len(lines)), 2):
                jobs.append(Job("i686 " + prof, [exe], PROBE, list(part), whole))
        build_miri(BIG)
        for part in share(spread(lines, n("miri")), WORKERS):
            jobs.append(Job("s390x (Miri)", ["cargo"] + miri_args(BIG), PROBE, part, cap, capped=True,
                            extra=dict(miri_env(BIG), RUSTUP_TOOLCHAIN=NIGHTLY,
                                       CARGO_TARGET_DIR=os.path.join(vlib.TARGET, "miri"))))
    else:
        for name in ("tsan", "tsan-lazy"):
            exe = build_san(name)
            k = n("tsan")
            idx = list(range(0, min(len(lines), k)))
            # short programs, so that first uses coincide often
            first = spread(lines, 240)
            jobs.append(Job(name, [exe, "threads", "4"], PROBE, idx, whole, threads=4))
            for part in share(first, 8):
                jobs.append(Job(name, [exe, "threads", "8"], PROBE, part, whole, threads=8))
        for name in ("msan", "asan"):
            exe = build_san(name)
            for part in share(range(len(lines) if name == "asan" else min(n(name), len(lines))), 2):
                jobs.append(Job(name, [exe, "flush"], PROBE, list(part), whole))
        build_miri(HOST)
        extra = dict(miri_env(HOST), RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=os.path.join(vlib.TARGET, "miri"))
        cmd = ["cargo"] + miri_args(HOST)
        parts = share(spread(lines, n("miri")), WORKERS - 1)
        gen = [i for i, l in enumerate(lines) if l == "ctx.gen"]
        parts[0] = gen + parts[0]
        for part in parts:
            jobs.append(Job("Miri", cmd, PROBE, part, cap, capped=True, extra=extra))
        few = [i for i in spread(lines, 60) if lines[i].split(" ")[0] in ("sign", "verify", "pk")][:3]
        jobs.append(Job("Miri, threads", cmd + ["--", "threads", "2"], PROBE, few, 4 * cap,
                        threads=2, capped=True, extra=extra))
    # the long ones first
    return sorted(jobs, key=lambda j: not j.capped)


def spread(lines, n):
    """n operations of every kind in turn"""
    kinds = {}
    for i, l in enumerate(lines):
        if l != "ctx.gen":
            kinds.setdefault(l.split(" ")[0], []).append(i)
    out, k = [], 0
    while len(out) < n and any(k < len(v) for v in kinds.values()):
        for name in sorted(kinds):
            if k < len(kinds[name]) and len(out) < n:
                out.append(kinds[name][k])
        k += 1
    return out


def run(prop, tier, seed, t0, scale):
    exes = vlib.build(["checked"])
    c = COUNT.get(tier, COUNT["quick"])
    n = max(int(max(c["native"] if prop == "C28" else c["asan"], c["miri"]) * scale), 200)
    lines, want = features.vectors(exes["checked"], seed, n)
    lines.append("ctx.gen")
    want.append("1024")
    violation, broken = None, None
    try:
        jobs = plan(prop, tier, scale, lines)
    except Broken as b:
        jobs, broken = [], b
        violation = {"property": prop, "profile": "probe", "group": "build", "case": {"config": b.config, "build": b.errors},
                     "reason": "[%s] does not compile: %s" % (b.config, b.errors)}
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        fs = [ex.submit(j.run, lines, want) for j in jobs]
        for f in fs:
            f.result()
    bad = [j for j in jobs if j.bad]
    if bad:
        # a report that is about one operation first
        j = sorted(bad, key=lambda j: (j.threads, len(j.bad["ops"])))[0]
        if j.threads:
            j.shrink()
        case = dict(j.bad, config=j.config)
        violation = {"property": prop, "profile": "probe", "group": j.config, "case": case,
                     "reason": "[%s] %s: got %s, expected %s%s" % (
                         j.config, case["op"][:400], case["got"][:400], case["want"][:400],
                         "; " + case["message"] if "message" in case else "")}
    per, distinct = {}, set()
    for j in jobs:
        per[j.config] = per.get(j.config, 0) + len(j.done) * max(1, j.threads)
        distinct.update((j.config, lines[i]) for i in j.done)
    kinds = {}
    for cfg, l in distinct:
        kinds.setdefault(cfg, set()).add(l.split(" ")[0])
    evs = sum(per.values())
    missing = {j.config: j.unavailable for j in jobs if j.unavailable}
    for cfg, m in missing.items():
        print("note: %s cannot run here: %s" % (cfg, m))
    if not violation and not evs:
        raise vlib.Undecided("no configuration can run here: %s" % missing)
    if not violation and any(v == 0 and cfg not in missing for cfg, v in per.items()):
        raise vlib.Undecided("nothing was executed in some configuration: %s" % per)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": evs,
              "distinct_nontrivial": len(distinct),
              "rule": "generated operations (public API and core arithmetic, point and multiplication "
                      "operations) executed by a probe in each configuration; counted per (configuration, "
                      "distinct operation answered); threads count once per thread in evaluations",
              "samples": [{"config": j.config, "op": lines[j.done[-1]][:300], "want": want[j.done[-1]][:200]}
                          for j in jobs if j.done][:10],
              "configurations": per,
              "could_not_run_here": missing,
              "kinds_of_operation": {k: len(v) for k, v in kinds.items()},
          },
          "assumptions": ["the reference model in harness/src/refm.rs",
                          "Miri and the compiler's sanitizers report what they claim to",
                          "interpreters get a fixed time, so how far they get depends on the machine"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    return vlib.report(prop, ev, violation)


def replay(v):
    os.makedirs(vlib.OUT, exist_ok=True)
    case, cfg = v["case"], v["case"]["config"]
    if "build" in case:
        try:
            build32(cfg.split(" ")[1]) if cfg.startswith("i686") else build_miri(BIG)
        except Broken as b:
            print("does not compile:", b.errors)
            print("VIOLATION property=%s replay (see above)" % v["property"])
            return 1
        return 0
    if cfg.startswith("i686"):
        cmd, extra = [build32(cfg.split(" ")[1])], {}
    elif cfg in SANITIZERS:
        cmd, extra = [build_san(cfg)], {}
    else:
        t = BIG if cfg.startswith("s390x") else HOST
        build_miri(t)
        cmd = ["cargo"] + miri_args(t)
        extra = dict(miri_env(t), RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=os.path.join(vlib.TARGET, "miri"))
    if cfg.startswith("tsan"):
        cmd += ["threads", "8"]
    elif cfg == "Miri, threads":
        cmd += ["--", "threads", "2"]
    bad = False
    for _ in range(5 if "threads" in cmd else 1):
        got, rc, err = feed(cmd, PROBE, case["ops"], 900, extra)
        bad = rc != 0 or any(g.startswith("differs") for g in got) or (
            "wants" in case and (not got or not features.accepts(case["wants"][0], got[-1])))
        if bad:
            break
    print("exit", rc, "answers", got[-1:], "expected", case["want"], "" if rc in (0, None) else why(err))
    if bad:
        print("VIOLATION property=%s replay (see above)" % v["property"])
    return 1 if bad else 0
