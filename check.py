#!/usr/bin/env python3
"""Decides one property: check.py PROP [--tier quick|thorough] [--seed N] | check.py PROP --replay FILE | check.py --setup

Builds the harness against /repo's working tree for both runtimes, runs the property's workloads under its monitors,
writes evidence/PROP.json and, for a violation, a replay file under out/.
Exit 0: held on everything explored. 1: VIOLATION. 2: no answer (build failed, or too little was observed)."""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
RUNTIMES = ["tokio", "async-std"]
LEVEL = {"C20": "fault_enumeration", "C27": "fault_enumeration"}
HOST = "x86_64-unknown-linux-gnu"


def log(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for top, skip in ((REPO, {".git", "target"}), (HARNESS, {"target"})):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in skip)
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
                h.update(b"\0")
    return h.hexdigest()


def forget_client(tdir):
    """Drops cargo's record of the client and the harness, so that both are built again whatever the file times say."""
    for base, ds, _ in os.walk(tdir):
        if os.path.basename(base) == ".fingerprint":
            for x in ds:
                if x.startswith(("async-smtp-", "vh-")):
                    shutil.rmtree(os.path.join(base, x), ignore_errors=True)
            ds[:] = []
        elif base.count(os.sep) - tdir.count(os.sep) > 2:
            ds[:] = []


VARIANTS = {
    # name: (toolchain args, RUSTFLAGS, extra cargo args, path of the binary below the target directory)
    "": ([], "--cap-lints warn", [], "release/vh"),
    "asan": (["+nightly"], "--cap-lints warn -Zsanitizer=address", ["--target", HOST], HOST + "/release/vh"),
    "tsan": (["+nightly"], "--cap-lints warn -Zsanitizer=thread", ["-Zbuild-std", "--target", HOST], HOST + "/release/vh"),
}


def target_dir(rt, variant):
    return os.path.join(TARGET, rt + ("-" + variant if variant else ""))


def build(rt, variant=""):
    """Returns the path of the binary; raises RuntimeError with the compiler's words."""
    tool, flags, extra, rel = VARIANTS[variant]
    tdir = target_dir(rt, variant)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash()
        stamp = os.path.join(tdir, ".stamp")
        bin_ = os.path.join(tdir, rel)
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want or not os.path.exists(bin_):
            forget_client(tdir)
            if os.path.exists(stamp):
                os.remove(stamp)
            env = dict(os.environ, RUSTFLAGS=flags, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true")
            env.pop("CARGO_ENCODED_RUSTFLAGS", None)
            p = subprocess.run(["cargo"] + tool + ["build", "--release", "--offline", "--features", "rt-" + rt] + extra,
                               cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode != 0 or not os.path.exists(bin_):
                raise RuntimeError(f"build for {rt} {variant} failed:\n" + p.stdout[-6000:])
            with open(stamp, "w") as f:
                f.write(want)
        # A private copy: another check may rebuild while this one runs.
        os.makedirs(OUT, exist_ok=True)
        mine = os.path.join(OUT, f".vh-{rt}-{variant or 'std'}-{os.getpid()}")
        shutil.copy2(bin_, mine)
        return mine


def in_parallel(jobs):
    """jobs: {key: callable}; returns {key: result or exception}"""
    res = {}

    def go(k, f):
        try:
            res[k] = f()
        except Exception as e:  # noqa: BLE001
            res[k] = e

    ts = [threading.Thread(target=go, args=kv) for kv in jobs.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


class Outcome:
    def __init__(self, label):
        self.label = label
        self.data = None        # JSON of vh
        self.failure = None     # dict: workload, name, idx, msg, detail
        self.problem = None     # why there is no answer
        self.digests = None


def run_vh(binary, prop, tier, seed, label, timeout, extra=(), env_extra=None, digests=False):
    o = Outcome(label)
    tag = re.sub(r"[^a-z0-9]+", "-", label)
    out = os.path.join(OUT, f".{prop}-{tag}-{os.getpid()}.json")
    dig = out + ".dig"
    cmd = [binary, prop, "--tier", tier, "--seed", str(seed), "--out", out] + list(extra)
    if digests:
        cmd += ["--digests", dig]
    env = dict(os.environ, **(env_extra or {}))
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        o.problem = f"{label}: no result within {timeout} s"
        return o
    if os.path.exists(out):
        try:
            o.data = json.load(open(out))
        except ValueError:
            o.problem = f"{label}: unreadable result"
        os.remove(out)
    if digests and os.path.exists(dig):
        o.digests = open(dig).read().split("\n")
        os.remove(dig)
    if o.data and o.data.get("failure"):
        o.failure = o.data["failure"]
        return o
    if p.returncode == 0 and o.data:
        if o.data["floors"] and not extra:
            o.problem = f"{label}: too little was observed: " + "; ".join(o.data["floors"])
        return o
    # It ended in some other way: a sanitizer report, an abort or a signal.
    m = re.search(r"ABORTED (\d+),(\d+)", p.stderr)
    tail = p.stderr[-6000:]
    if re.search(r"WARNING: ThreadSanitizer|ERROR: AddressSanitizer", p.stderr):
        what = re.search(r"(WARNING: ThreadSanitizer[^\n]*|ERROR: AddressSanitizer[^\n]*)", p.stderr).group(1)
        o.failure = {"workload": -1, "name": "sanitizer report", "idx": -1, "msg": what, "detail": p.stderr[:8000]}
    elif m or p.returncode == 134 or p.returncode in (-6, -11, -4, -7, -8):
        w, i = (int(m.group(1)), int(m.group(2))) if m else (-1, -1)
        o.failure = {"workload": w, "name": "abnormal end", "idx": i, "msg": f"the process ended abnormally ({p.returncode}): a crash, a stack overflow or an abort", "detail": tail}
    else:
        o.problem = f"{label}: ended with {p.returncode}: {tail[-1500:]}"
    return o


def run_miri(prop, rt, tier, seed, n_procs, cases, only, timeout):
    """Runs workloads in the Miri interpreter, one process per seed. Returns Outcomes."""
    tdir = target_dir(rt, "miri")
    flags = "-Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-disable-isolation"
    env = dict(os.environ, MIRIFLAGS=flags, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints warn")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--features", "rt-" + rt, "--", prop, "--tier", tier, "--threads", "1"]
    outs = []
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash()
        stamp = os.path.join(tdir, ".stamp")
        if not os.path.exists(stamp) or open(stamp).read() != want:
            forget_client(tdir)
        try:
            p = subprocess.run(base + ["--seed", "1", "--only", "message-alone", "--cases", "1"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=600)
            bad = None if (p.returncode in (0, 1) and p.stdout.lstrip().startswith("{")) or "Undefined Behavior" in p.stderr else p.stderr[-1500:]
        except subprocess.TimeoutExpired:
            bad = "did not finish building in 600 s"
        if bad is None:
            with open(stamp, "w") as f:
                f.write(want)
    if bad is not None:
        o = Outcome(f"miri {rt}")
        o.problem = f"Miri could not be run: {bad}"
        return [o]

    def one(k, workload):
        o = Outcome(f"miri {rt} {workload} seed {seed * 1000 + k}")
        cmd = base + ["--seed", str(seed * 1000 + k), "--only", workload, "--cases", str(cases[workload])]
        try:
            p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            o.problem = f"{o.label}: no result within {timeout} s"
            return o
        if "Undefined Behavior" in p.stderr:
            what = re.search(r"error: (Undefined Behavior[^\n]*)", p.stderr)
            o.failure = {"workload": workload, "name": workload, "idx": -1, "msg": what.group(1) if what else "Undefined Behavior", "detail": " ".join(cmd) + "\n" + p.stderr[:8000]}
            return o
        try:
            o.data = json.loads(p.stdout)
        except ValueError:
            o.problem = f"{o.label}: ended with {p.returncode}: {p.stderr[-800:]}"
            return o
        if o.data.get("failure"):
            o.failure = o.data["failure"]
        return o

    res = in_parallel({(k, w): (lambda k=k, w=w: one(k, w)) for k in range(n_procs) for w in only})
    for v in res.values():
        if isinstance(v, Exception):
            o = Outcome("miri " + rt)
            o.problem = repr(v)
            v = o
        outs.append(v)
    return outs


def known_findings(prop):
    """[(pattern, text)]: lines 'open: property=C01 match=<regular expression> :: <what fails>'"""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def clip(s, n):
    return s if len(s) <= n else s[:n] + f"... ({len(s)} characters)"


def write_replay(prop, tier, seed, o, f):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{prop}-{re.sub(r'[^a-z0-9]+', '-', o.label)}-{f['workload']}-{f['idx']}.json")
    json.dump({"property": prop, "tier": tier, "seed": seed, "run": o.label, "workload": f["workload"], "workload_name": f["name"], "idx": f["idx"],
               "message": f["msg"], "detail": clip(f["detail"], 200_000), "replay": f"python3 check.py {prop} --replay {path}"},
              open(path, "w"), indent=1)
    return path


def replay(prop, path):
    r = json.load(open(path))
    rts = RUNTIMES if "both" in r["run"] else [x for x in RUNTIMES if x in r["run"].split()]
    log(r["message"])
    if "miri" in r["run"] or not isinstance(r["workload"], int) or r["workload"] < 0:
        log(r["detail"])
        return 0
    rc = 0
    for rt in rts:
        log(f"--- {rt}")
        b = build(rt, next((v for v in ("asan", "tsan") if v in r["run"]), ""))
        try:
            p = subprocess.run([b, prop, "--tier", r["tier"], "--seed", str(r["seed"]), "--replay", f"{r['workload']},{r['idx']}"])
            rc = rc or p.returncode
        finally:
            os.remove(b)
    return 1 if rc else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        res = in_parallel({rt: (lambda rt=rt: build(rt)) for rt in RUNTIMES})
        for rt, b in res.items():
            if isinstance(b, Exception):
                log(b)
                return 2
            os.remove(b)
        log("built for", ", ".join(RUNTIMES))
        return 0
    if not re.match(r"C\d\d$", a.prop or ""):
        ap.error("which property?")
    if a.replay:
        return replay(a.prop, a.replay)
    return check(a.prop, a.tier, a.seed)


def check(prop, tier, seed):
    start = time.time()
    thorough = tier == "thorough"
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    timeout = 600 if not thorough else 6 * 3600
    wanted = [(rt, "") for rt in RUNTIMES]
    if prop in ("C23", "C28"):
        wanted.append(("tokio", "tsan"))
    if prop == "C24":
        wanted.append(("tokio", "asan"))
        if thorough:
            wanted.append(("async-std", "asan"))
    if prop == "C25" and thorough:
        wanted.append(("tokio", "asan"))
    built = in_parallel({k: (lambda k=k: build(*k)) for k in wanted})
    notes, outcomes = [], []
    try:
        for k in wanted:
            if isinstance(built[k], Exception):
                if k[1]:
                    # An extra instrument that cannot be built here takes nothing from the others, but is not passed over in silence.
                    notes.append(f"NOT RUN: {k[0]} {k[1]}: {clip(str(built[k]), 600)}")
                    log(notes[-1])
                else:
                    log(built[k])
                    log(f"NO ANSWER property={prop}: the harness does not build")
                    return 2
        jobs = {}
        for rt, var in wanted:
            b = built[(rt, var)]
            if isinstance(b, Exception):
                continue
            env = {"tsan": {"TSAN_OPTIONS": "halt_on_error=1"}, "asan": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1"}}.get(var, {})
            extra = ["--cases", "3000" if thorough else "400"] if var == "tsan" else (["--cases", "20000" if thorough else "1200"] if var == "asan" else [])
            if prop == "C28" and var == "tsan":
                extra += ["--only", "moving-between-threads"]
            label = (rt + " " + var).strip()
            jobs[label] = (lambda b=b, label=label, extra=extra, env=env: run_vh(b, prop, tier, seed, label, timeout, extra, env, digests=(prop == "C22")))
        if prop == "C24":
            cases = {"message-alone": 900, "short-sends": 120} if thorough else {"message-alone": 40, "short-sends": 5}
            for rt in RUNTIMES:
                jobs["miri " + rt] = (lambda rt=rt: run_miri(prop, rt, tier, seed, 4 if thorough else 2, cases, ["message-alone", "short-sends"], timeout))
        res = in_parallel(jobs)
        for label, v in res.items():
            if isinstance(v, Exception):
                o = Outcome(label)
                o.problem = f"{label}: {v!r}"
                v = o
            outcomes.extend(v if isinstance(v, list) else [v])
        if prop == "C22":
            outcomes.append(compare_digests(res, built, tier, seed))
    finally:
        for b in built.values():
            if isinstance(b, str) and os.path.exists(b):
                os.remove(b)

    known = known_findings(prop)
    violations, seen_known = [], []
    for o in outcomes:
        if o.failure:
            k = next((t for p, t in known if re.search(p, o.failure["msg"])), None)
            if k:
                seen_known.append(k)
            else:
                violations.append(o)
    problems = []
    for o in outcomes:
        if o.problem:
            if "miri" in o.label or "asan" in o.label or "tsan" in o.label:
                notes.append("NOT RUN: " + clip(o.problem, 600))
                log(notes[-1])
            else:
                problems.append(o.problem)
    # On a violation, or when a known finding stops the run, what was observed until then is still reported.
    cov = coverage(prop, outcomes, notes)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": cov,
          "wall_s": round(time.time() - start, 2), "violations": len(violations),
          "known_findings": seen_known,
          "answer": "violated" if violations else ("no answer" if problems else "held")}
    tmp = os.path.join(EVID, f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    for _, t in known:
        log(f"KNOWN-FINDING: property={prop} {t}")
    if violations:
        for o in violations:
            path = write_replay(prop, tier, seed, o, o.failure)
            log(f"{o.label}: {o.failure['name']} case {o.failure['idx']}: {clip(o.failure['msg'], 1500)}")
            log(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        for p in problems:
            log(p)
        log(f"NO ANSWER property={prop}")
        return 2
    log(f"held: {prop} ({cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct, {ev['wall_s']} s)")
    return 0


def compare_digests(res, built, tier, seed):
    o = Outcome("both tokio async-std")
    a, b = (res.get(rt) for rt in RUNTIMES)
    if not (isinstance(a, Outcome) and isinstance(b, Outcome) and a.digests and b.digests):
        if not (getattr(a, "failure", None) or getattr(b, "failure", None)):
            o.problem = "both: no digests to compare"
        return o
    if a.failure or b.failure:
        return o
    diff = next(((x, y) for x, y in zip(a.digests, b.digests) if x != y), None)
    if diff is None and len(a.digests) == len(b.digests):
        o.data = {"digests compared": len([x for x in a.digests if x])}
        return o
    if diff is None:
        o.problem = "both: different numbers of digests"
        return o
    w, i = diff[0].split()[:2]
    if diff[1].split()[:2] != [w, i]:
        o.problem = "both: digests are of different cases"
        return o
    detail = ""
    for rt in RUNTIMES:
        p = subprocess.run([built[(rt, "")], "C22", "--tier", tier, "--seed", str(seed), "--replay", f"{w},{i}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        detail += f"=== {rt}\n{p.stdout[:60000]}\n"
    name = a.data["workloads"][int(w)]["name"]
    o.failure = {"workload": int(w), "name": name, "idx": int(i), "msg": "the tokio and async-std builds behave differently in this session", "detail": detail}
    return o


def coverage(prop, outcomes, notes):
    main = [o for o in outcomes if o.data and "evaluations" in o.data]
    std = [o for o in main if o.label in RUNTIMES]
    cov = {"evaluations": sum(o.data["evaluations"] for o in main),
           # The two builds see the same cases: they count once.
           "distinct_nontrivial": max([o.data["distinct"] for o in std], default=0),
           "rule": std[0].data["rule"] + "; each case runs in a tokio and an async-std build, and is counted as distinct once" if std else "",
           "samples": [clip(s, 1500) for s in (std[0].data["samples"] if std else [])][:3] or ["(none)"],
           "runs": {}}
    miri = {}
    for o in main:
        if o.label.startswith("miri"):
            m = miri.setdefault(" ".join(o.label.split()[:2]), {"processes": 0, "evaluations": 0, "counts": {}})
            m["processes"] += 1
            m["evaluations"] += o.data["evaluations"]
            for k, v in o.data["counts"].items():
                m["counts"][k] = m["counts"].get(k, 0) + v
        else:
            cov["runs"][o.label] = {"wall_s": o.data["wall_s"], "evaluations": o.data["evaluations"], "workloads": o.data["workloads"], "observed": o.data["counts"]}
    cov["runs"].update(miri)
    for o in outcomes:
        if o.data and "digests compared" in o.data:
            cov["digests compared"] = o.data["digests compared"]
    if notes:
        cov["notes"] = [clip(n, 600) for n in notes]
    return cov


if __name__ == "__main__":
    sys.exit(main())
