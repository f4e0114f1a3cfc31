"""C24: the library in every feature configuration, against the reference model."""
import json, os, shutil, subprocess, time
import vlib

PROBE = os.path.join(vlib.VERIF, "probe")
CONFIGS = [
    "", "hmac", "static-context", "hmac,static-context",
    "std", "std,hmac", "std,static-context", "std,hmac,static-context",
    "lazy-static-context", "hmac,lazy-static-context",
]
DEFAULT = "std,hmac,static-context"
COUNT = {"quick": 20000, "thorough": 600000}
# configurations of the library as a dependency (no probe), release and debug
LIB_BUILDS = [("core", ["--no-default-features"]), ("core", []), (".", [])]


def unsupported(op, cfg):
    f = cfg.split(",")
    std = "std" in f or "lazy-static-context" in f
    return (op == "sign" and "hmac" not in f) or (op == "serde" and not std)


def vectors(exe, seed, n):
    """n operations with the reference model's answers"""
    p = subprocess.run([exe, "vectors", str(seed), str(n)], stdout=subprocess.PIPE,
                       text=True, env=vlib.env(), timeout=3600)
    if p.returncode != 0:
        raise vlib.Undecided("vector generation failed")
    pairs = [l.split("\t") for l in p.stdout.splitlines()]
    return [x[0] for x in pairs], [x[1] for x in pairs]


def build_probe(cfg, log):
    target = os.path.join(vlib.TARGET, "probe")
    rc, out = vlib.cargo(["build", "--offline", "--locked", "--release", "--features", cfg],
                         PROBE, target, log)
    if rc != 0:
        return None, out
    d = os.path.join(vlib.OUT, "probe")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "probe-" + (cfg.replace(",", "+") or "none"))
    shutil.copy2(os.path.join(target, "release", "probe"), exe)
    return exe, out


def accepts(want, got):
    if want == "error or any zero" and got == "err:InvalidSignature":
        return True
    if want in ("any zero", "error or any zero"):
        v = got.split(" ")
        return len(v) == 2 and "00" * 32 in v
    return want == got


def run_probe(exe, lines, limit):
    try:
        p = subprocess.run([exe], input="".join(l + "\n" for l in lines), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=limit, env=vlib.env())
    except subprocess.TimeoutExpired:
        raise vlib.Undecided("%s did not finish" % exe)
    out = p.stdout.splitlines()
    if len(out) != len(lines):
        # killed part-way: the first unanswered operation is the one that did it
        return out + ["killed (exit %d)" % p.returncode], p.returncode
    return out, 0


def judge(cfg, lines, want, got, base):
    for i, g in enumerate(got):
        op = lines[i].split(" ", 1)[0]
        if unsupported(op, cfg):
            ok, w = g == "n/a", "n/a"
        else:
            ok, w = accepts(want[i], g), want[i]
            if ok and base is not None and i < len(base) and base[i] != "n/a" and base[i] != g:
                ok, w = False, base[i]
        if not ok:
            return {"property": "C24", "profile": "probe", "group": "vectors",
                    "case": {"config": cfg, "op": lines[i], "want": w},
                    "reason": "[%s] %s: got %s, expected %s" % (cfg or "no features", lines[i], g, w)}
    return None


def run(tier, seed, t0):
    exes = vlib.build(["checked"])
    log = os.path.join(vlib.OUT, "build.log")
    n = COUNT.get(tier, COUNT["quick"])
    lines, want = vectors(exes["checked"], seed, n)
    target = os.path.join(vlib.TARGET, "probe")
    vlib.drop_stale(target, vlib.repo_digest())
    # the default configuration first: when that does not build nothing can be said
    order = [DEFAULT] + [c for c in CONFIGS if c != DEFAULT]
    evaluations, per_cfg, violation, base, distinct, done = 0, {}, None, None, 0, []
    ops = {}
    for cfg in order:
        exe, out = build_probe(cfg, log)
        if exe is None:
            if cfg == DEFAULT:
                raise vlib.Undecided("the probe does not build in the default configuration:\n" + out[-3000:])
            errs = [l for l in out.splitlines() if l.startswith("error")]
            violation = {"property": "C24", "profile": "probe", "group": "build",
                         "case": {"config": cfg},
                         "reason": "configuration [%s] does not build: %s" % (cfg or "no features", " / ".join(errs[:3]))}
            break
        got, rc = run_probe(exe, lines, 600)
        violation = judge(cfg, lines, want, got, base)
        supported = [l for l, g in zip(lines, got) if g != "n/a"]
        evaluations += len(supported)
        distinct += len(set(supported))
        per_cfg[cfg or "none"] = len(supported)
        done.append(cfg)
        if cfg == DEFAULT:
            base = got
            for l in lines:
                o = l.split(" ", 1)[0]
                ops[o] = ops.get(o, 0) + 1
        if violation:
            violation = minimise(exe, cfg, violation)
            break
    if violation is None:
        # the core crate by itself
        for d, args in LIB_BUILDS:
            rc, out = vlib.cargo(["build", "--offline", "--release"] + args,
                                 copy_lock(os.path.join(vlib.REPO, d)), target, log)
            if rc != 0 and ("error[" in out or "error: could not compile" in out):
                violation = {"property": "C24", "profile": "probe", "group": "build",
                             "case": {"crate": d, "args": args},
                             "reason": "crate %s does not build with %s" % (d, args)}
                break
    samples = [{"config": c, "op": lines[i][:300], "want": want[i][:200]}
               for c in done[:2] for i in range(0, min(len(lines), 12), 4)]
    cov = {
        "evaluations": evaluations,
        "distinct_nontrivial": distinct,
        "rule": "generated operations (keys, messages, signatures, tweaks, malformed encodings; shared argument pools) executed by a probe built in each feature configuration; counted per (configuration, distinct operation the configuration offers)",
        "samples": samples,
        "configurations": per_cfg,
        "operations": ops,
    }
    ev = {"property": "C24", "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the reference model in harness/src/refm.rs",
                          "no_std configurations are built for the host target"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(vlib.VERIF, "evidence", "C24.json"), "w"), indent=1)
    return vlib.report("C24", ev, violation)


def copy_lock(crate):
    """Build a crate of /repo without writing a lock file there."""
    d = os.path.join(vlib.OUT, "lib-src")
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(vlib.REPO, d, ignore=shutil.ignore_patterns(".git", "target", "Cargo.lock"), symlinks=True)
    rel = os.path.relpath(crate, vlib.REPO)
    dst = os.path.normpath(os.path.join(d, rel))
    shutil.copy(os.path.join(PROBE, "Cargo.lock"), os.path.join(dst, "Cargo.lock"))
    return dst


def minimise(exe, cfg, v):
    """Alone, without the operations that went before, if it still fails that way."""
    got, _ = run_probe(exe, [v["case"]["op"]], 60)
    v["case"]["alone"] = bool(got) and not accepts(v["case"]["want"], got[0])
    return v


def replay(v):
    log = os.path.join(vlib.OUT, "build.log")
    os.makedirs(vlib.OUT, exist_ok=True)
    target = os.path.join(vlib.TARGET, "probe")
    vlib.drop_stale(target, vlib.repo_digest())
    c = v["case"]
    if "crate" in c:
        rc, out = vlib.cargo(["build", "--offline", "--release"] + c["args"],
                             copy_lock(os.path.join(vlib.REPO, c["crate"])), target, log)
        bad = rc != 0
    else:
        exe, out = build_probe(c["config"], log)
        bad = exe is None
        if exe and "op" in c:
            got, _ = run_probe(exe, [c["op"]], 60)
            bad = not got or not accepts(c["want"], got[0])
            print("got", got[:1], "want", c["want"])
    if bad:
        print("VIOLATION property=C24 replay (see above)")
    return 1 if bad else 0
