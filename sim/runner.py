"""Driver and worker.

  run.py check C01            run the check (VERIF_SEED, VERIF_TIER)
  run.py replay FILE          replay one file exactly (exit 1 if it violates)
  run.py selftest [C01 ...]   determinism: same seeds, other worker counts
  run.py block ...            (internal) one block of runs in one process
"""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

from . import core

PY = sys.executable
NPROC = max(1, min(8, os.cpu_count() or 1))
ALARM_S = 25            # wall seconds before one run is re-run with step counting
STEP_BUDGET = 6000000   # traced lines of library code a run may execute
MINIMISE_S = 60
ATTEMPTS = 60


SOLVER = ("C31", "C34")      # checks that play the part of PyBliss


def boot(prop=None):
    """Install the seams, then import the library from the working tree."""
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    from . import rand, sched
    if core.REPO in sys.path:
        sys.path.remove(core.REPO)
    sys.path.insert(0, core.REPO)
    rand.install()
    sched.install()
    if prop in SOLVER:
        from . import bliss
        bliss.install()
    import pymnet
    got = os.path.dirname(os.path.realpath(pymnet.__file__)) + os.sep
    if got != core.PYMNET_DIR:
        raise RuntimeError("imported pymnet from %s, expected %s" % (got, core.PYMNET_DIR))
    return pymnet


def load_check(prop):
    return importlib.import_module("checks.%s" % prop.lower())


def env_for(hashseed):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=core.VERIF)
    if os.path.isdir("/opt/venv/mplconfig"):
        e["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
    return e


def hashseed_for(seed, prop, block):
    return core.derive("hashseed", seed, prop, block) % 4294967295


# ---------------------------------------------------------------- one run

def _alarm(signum, frame):
    raise core.Hang("alarm")


class StepTracer(object):
    """Deterministic step budget: counts executed lines of library code."""

    def __init__(self, budget):
        self.n = 0
        self.budget = budget

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(core.PYMNET_DIR) or "networkx" in f:
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n > self.budget:
                raise core.Hang("steps")
        return self.local


def _from_library(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(core.PYMNET_DIR):
            return True
        tb = tb.tb_next
    return False


def run_one(check, sc, count_steps=False):
    """Execute one scenario.  Returns (ctx, violation or None)."""
    from . import rand
    ctx = core.Ctx()
    old = signal.signal(signal.SIGALRM, _alarm)
    if not count_steps:
        signal.alarm(ALARM_S)
    else:
        signal.alarm(ALARM_S * 12)
    viol = None
    try:
        if count_steps and not getattr(check, "USES_TRACE", False):
            tr = StepTracer(STEP_BUDGET)
            sys.settrace(tr)
        try:
            check.execute(sc, ctx)
        finally:
            if count_steps and not getattr(check, "USES_TRACE", False):
                sys.settrace(None)
    except core.Violation as v:
        viol = v
    except core.Inconclusive as e:
        ctx.inconclusive = str(e)
        ctx.emit("INCONCLUSIVE", str(e))
    except Exception as e:
        # library code raised where no oracle expects it, or an oracle cannot
        # make sense of what the library returned
        kind = ("exception:" if _from_library(e) else "malformed-result:") + type(e).__name__
        ctx.emit("VIOLATION", kind)
        viol = core.Violation(kind, traceback.format_exc()[-1500:])
    except rand.DrawBudget:
        ctx.inconclusive = "draw budget"
        ctx.emit("INCONCLUSIVE", "draw budget")
    except core.Hang as h:
        signal.alarm(0)
        if str(h) == "steps":
            ctx.emit("VIOLATION", "no-progress")
            viol = core.Violation("no-progress", "no result within %d executed library lines" % STEP_BUDGET)
        elif not count_steps:
            signal.signal(signal.SIGALRM, old)
            c2, v2 = run_one(check, sc, count_steps=True)
            if v2 is not None and v2.kind == "no-progress":
                sc["count_steps"] = True
            return c2, v2
        else:
            raise RuntimeError("run neither finished nor exceeded its step budget in wall time")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx, viol


# ---------------------------------------------------------------- minimise

def minimise(check, sc, kind, deadline):
    """ddmin over the scenario's declared lists, then check specific shrinks,
    keeping the violation class."""
    tried = [0]

    def fails(c):
        if time.time() > deadline:
            return False
        tried[0] += 1
        try:
            _, v = run_one(check, json.loads(json.dumps(c)), count_steps=bool(c.get("count_steps")))
        except Exception:
            return False
        return v is not None and v.kind == kind

    def ddmin(c, key):
        items = c[key]
        n = 2
        while len(items) >= 1 and time.time() < deadline:
            size = max(1, len(items) // n)
            for s in range(0, len(items), size):
                cand = items[:s] + items[s + size:]
                c2 = dict(c)
                c2[key] = cand
                if fails(c2):
                    items = cand
                    c = c2
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return c

    for _ in range(3):
        before = json.dumps(sc, sort_keys=True)
        for key in getattr(check, "SHRINK", ()):
            if isinstance(sc.get(key), list):
                sc = ddmin(sc, key)
        again = True
        while again and time.time() < deadline:
            again = False
            for cand in (check.shrink(sc) if hasattr(check, "shrink") else ()):
                if time.time() > deadline:
                    break
                if fails(cand):
                    sc = cand
                    again = True
                    break
        if json.dumps(sc, sort_keys=True) == before:
            break
    return sc, tried[0]


# ---------------------------------------------------------------- worker

def scenario_for(check, prop, seed, tier, i):
    sc = check.generate(core.rng_for("run", seed, prop, i), tier)
    sc = json.loads(json.dumps(sc))
    return sc


def block_main(a):
    boot(a.prop)
    check = load_check(a.prop)
    known = core.load_known()
    t0 = time.time()
    out = {"block": a.block, "runs": 0, "digests": [], "nontrivial": 0, "inconclusive": {},
           "probes": {}, "faults": {}, "steps": 0, "known": {}, "violation": None, "samples": [],
           "cut_short": False}
    import collections
    probes, faults, inc = collections.Counter(), collections.Counter(), collections.Counter()
    for i in range(a.start, a.stop):
        if time.time() - t0 > a.wall:
            out["cut_short"] = True
            break
        sc = scenario_for(check, a.prop, a.seed, a.tier, i)
        try:
            ctx, v = run_one(check, sc)
        except Exception:
            sys.stderr.write("harness error in %s run %d\n" % (a.prop, i))
            raise
        out["runs"] += 1
        d = ctx.digest()
        out["digests"].append(d + ("+" if ctx.nontrivial else "-"))
        out["steps"] += ctx.steps
        probes.update(ctx.probes)
        faults.update(ctx.faults)
        if ctx.inconclusive:
            inc[ctx.inconclusive] += 1
        if a.logdir:
            with open(os.path.join(a.logdir, "%s-%d.log" % (a.prop, i)), "w") as f:
                f.write("\n".join(ctx.log))
        if len(out["samples"]) < 1 and ctx.nontrivial and v is None:
            out["samples"].append({"run": i, "scenario": sc, "log_tail": ctx.log[-4:], "digest": d})
        if v is not None:
            k = core.match_known(known, a.prop, v.kind)
            if k is not None:
                out["known"][v.kind] = out["known"].get(v.kind, 0) + 1
                continue
            small, tries = minimise(check, sc, v.kind, time.time() + MINIMISE_S)
            ctx2, v2 = run_one(check, json.loads(json.dumps(small)), count_steps=bool(small.get("count_steps")))
            if v2 is None:      # cannot happen for deterministic runs; keep the original
                small, ctx2, v2 = sc, ctx, v
            out["violation"] = {"run": i, "kind": v2.kind, "detail": v2.detail, "scenario": small,
                                "digest": ctx2.digest(), "log": ctx2.log[-200:],
                                "original_size": len(json.dumps(sc)), "minimise_runs": tries, "start": a.start,
                                "original": {"kind": v.kind, "detail": v.detail, "scenario": sc, "digest": d, "log": ctx.log[-200:]}}
            break
    out["probes"] = dict(probes)
    out["faults"] = dict(faults)
    out["inconclusive"] = dict(inc)
    out["wall"] = time.time() - t0
    with open(a.out, "w") as f:
        json.dump(out, f)
    return 0


# ---------------------------------------------------------------- driver

def run_blocks(prop, seed, tier, nruns, nblocks, jobs, outdir, wall, logdir=None, hashshift=0):
    """Split the runs over blocks (each its own process and hash seed)."""
    os.makedirs(outdir, exist_ok=True)
    nblocks = max(1, min(nblocks, nruns))
    bounds = [nruns * b // nblocks for b in range(nblocks + 1)]
    todo = list(range(nblocks))
    live = {}
    res = {}
    errs = []
    while todo or live:
        while todo and len(live) < jobs:
            b = todo.pop(0)
            out = os.path.join(outdir, "b%d.json" % b)
            cmd = [PY, "-W", "ignore", os.path.join(core.VERIF, "run.py"), "block", "--prop", prop, "--seed", str(seed),
                   "--tier", tier, "--block", str(b), "--start", str(bounds[b]),
                   "--stop", str(bounds[b + 1]), "--out", out, "--wall", str(wall)]
            if logdir:
                cmd += ["--logdir", logdir]
            errf = open(os.path.join(outdir, "b%d.err" % b), "w+")
            p = subprocess.Popen(cmd, env=env_for(hashseed_for(seed, prop, b) + hashshift), stdout=errf, stderr=errf,
                                 cwd=core.VERIF)
            live[b] = (p, errf, out, time.time())
        time.sleep(0.02)
        for b in list(live):
            p, errf, out, t0 = live[b]
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > wall + 500:
                    p.kill()
                continue
            del live[b]
            errf.seek(0)
            txt = errf.read()
            errf.close()
            if rc != 0:
                errs.append("block %d exit %s: %s" % (b, rc, txt[-3000:]))
            else:
                with open(out) as f:
                    res[b] = json.load(f)
    return [res[b] for b in sorted(res)], errs


def check_main(a):
    import collections
    import shutil
    import tempfile
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") if a.seed is None else a.seed
    tier = os.environ.get("VERIF_TIER", "quick") if a.tier is None else a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    print("check %s VERIF_SEED=%d tier=%s" % (prop, seed, tier))
    sys.stdout.flush()
    meta = read_meta(prop)
    nruns = a.runs or meta["runs"][tier]
    wall = meta.get("wall", {}).get(tier, 240 if tier == "quick" else 600)
    t0 = time.time()
    outdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        res, errs = run_blocks(prop, seed, tier, nruns, meta.get("blocks", 16), a.jobs or NPROC, outdir, wall)
        if errs:
            for e in errs[:3]:
                sys.stderr.write(e + "\n")
            print("HARNESS-ERROR %s: %d block(s) failed" % (prop, len(errs)))
            return 2
        wall_s = time.time() - t0
        probes, faults, inc, kn = (collections.Counter() for _ in range(4))
        digests, nontriv, runs, steps = set(), set(), 0, 0
        samples = []
        cut = False
        for r in res:
            probes.update(r["probes"])
            faults.update(r["faults"])
            inc.update(r["inconclusive"])
            kn.update(r["known"])
            runs += r["runs"]
            steps += r["steps"]
            cut = cut or r["cut_short"]
            for d in r["digests"]:
                digests.add(d[:-1])
                if d.endswith("+"):
                    nontriv.add(d[:-1])
            if len(samples) < 3:
                samples.extend(r["samples"])
        viols = sorted((r["violation"] for r in res if r["violation"]), key=lambda v: v["run"])
        known = [k for k in core.load_known() if k["property"] == prop]
        code = 0
        lines = []
        for k in known:
            # every listed finding has its own pinned scenario
            st = replay_known(prop, k)
            if st == "same":
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        seen_kinds = set()
        confirmed = 0
        for v in viols:
            if v["kind"] in seen_kinds:
                continue
            seen_kinds.add(v["kind"])
            if len(seen_kinds) > 4:
                break
            path = write_replay(prop, seed, tier, v, nruns, meta.get("blocks", 16))
            rc, txt = replay_in_fresh_process(path)
            n = 1
            while rc == 0 and v["run"] > v["start"] and n < 2 * (v["run"] - v["start"]):
                # the failure needs what earlier runs left behind in the process
                first = max(v["start"], v["run"] - n)
                path = write_replay(prop, seed, tier, dict(v, **v["original"]), nruns, meta.get("blocks", 16),
                                    {"tier": tier, "start": first, "stop": v["run"]})
                rc, txt = replay_in_fresh_process(path)
                n *= 4 if n > 1 else 2
            if rc not in (1, 2):
                # what happens hangs on something no seam controls (memory
                # addresses): the replay repeats the run until it shows
                if rc == 0:
                    path = write_replay(prop, seed, tier, dict(v, **v["original"]), nruns, meta.get("blocks", 16))
                with open(path) as f:
                    r = json.load(f)
                r["attempts"] = ATTEMPTS
                with open(path, "w") as f:
                    json.dump(r, f, indent=1)
                rc, txt = replay_in_fresh_process(path)
            if rc == 1:
                confirmed += 1
                lines.append("violation class %s in run %d: %s" % (v["kind"], v["run"], v["detail"]))
                lines.append("VIOLATION property=%s replay=%s" % (prop, path))
                code = 1
            else:
                lines.append("HARNESS-ERROR %s: replay of %s did not reproduce (exit %s) %s" % (prop, path, rc, txt[-500:]))
                if code == 0:
                    code = 2
        if runs == 0:
            code = code or 2
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": len(nontriv),
            "rule": meta["rule"],
            "samples": samples[:3],
            "distinct_event_logs": len(digests),
            "simulated_runs_per_hour": int(runs * 3600 / max(wall_s, 1e-6)),
            "simulated_steps": steps,
            "simulated_time": "the library reads no clock; simulated time is counted in scheduler steps",
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "inconclusive_runs": dict(inc),
            "known_finding_hits": dict(kn),
            "hash_seeds": min(meta.get("blocks", 16), nruns),
            "components_real": meta["real"],
            "components_stubbed": meta["stubbed"],
            "cut_short_by_wall_clock": cut,
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": confirmed}
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", "%s.json" % prop), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        print("runs=%d distinct_nontrivial=%d inconclusive=%d faults=%d wall=%.1fs" % (
            runs, len(nontriv), sum(inc.values()), sum(faults.values()), wall_s))
        for p in meta.get("must_hit", ()):
            if not probes.get(p) and not faults.get(p) and code == 0 and tier == "thorough":
                print("note: probe %s was never hit" % p)
        for l in lines:
            print(l)
        return code
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def read_meta(prop):
    """Check metadata without importing the library in the driver process."""
    with open(os.path.join(core.VERIF, "checks", "meta.json")) as f:
        m = json.load(f)
    d = dict(m["default"])
    d.update(m[prop])
    return d


def write_replay(prop, seed, tier, v, nruns, nblocks, warmup=None):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    nblocks = max(1, min(nblocks, nruns))
    bounds = [nruns * b // nblocks for b in range(nblocks + 1)]
    blk = max(b for b in range(nblocks) if bounds[b] <= v["run"])
    path = os.path.join(d, "%s-seed%d-%s-run%d.json" % (prop, seed, tier, v["run"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "verif_seed": seed, "run": v["run"], "kind": v["kind"],
                   "detail": v["detail"], "hashseed": hashseed_for(seed, prop, blk),
                   "digest": v["digest"], "scenario": v["scenario"], "event_log": v["log"], "warmup": warmup,
                   "minimise_runs": v["minimise_runs"]}, f, indent=1)
    return path


def replay_in_fresh_process(path):
    with open(path) as f:
        hs = json.load(f)["hashseed"]
    p = subprocess.run([PY, "-W", "ignore", os.path.join(core.VERIF, "run.py"), "replay", path], env=env_for(hs),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=core.VERIF, timeout=600)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def replay_known(prop, k):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump({"property": prop, "kind": k["kind"], "hashseed": 0, "scenario": k["scenario"]}, f)
    try:
        rc, txt = replay_in_fresh_process(f.name)
    finally:
        os.unlink(f.name)
    return "same" if rc == 1 and "kind=" + k["kind"] in txt else "gone"


def replay_main(a):
    with open(a.file) as f:
        r = json.load(f)
    if os.environ.get("PYTHONHASHSEED") != str(r["hashseed"]):
        return subprocess.call([PY, "-W", "ignore", os.path.join(core.VERIF, "run.py"), "replay", a.file],
                               env=env_for(r["hashseed"]), cwd=core.VERIF)
    boot(r["property"])
    check = load_check(r["property"])
    w = r.get("warmup")
    if w:
        for i in range(w["start"], w["stop"]):
            run_one(check, scenario_for(check, r["property"], r["verif_seed"], w["tier"], i))
        print("  after runs %d to %d in the same process" % (w["start"], w["stop"] - 1))
    attempts = r.get("attempts", 1)
    junk = []
    for k in range(attempts):
        sc = json.loads(json.dumps(r["scenario"]))
        ctx, v = run_one(check, sc, count_steps=bool(sc.get("count_steps")))
        if attempts == 1 or (v is not None and v.kind == r["kind"]):
            break
        junk.append([object() for _ in range(37 * (k + 1))])    # other addresses
        del junk[-1][::2]
    if attempts > 1:
        print("  attempt %d of %d: not the same every time, so it depends on memory addresses" % (k + 1, attempts))
    for l in ctx.log[-60:]:
        print("  " + l)
    if v is None:
        print("REPLAY property=%s: no violation%s" % (r["property"], " (inconclusive)" if ctx.inconclusive else ""))
        return 0
    print("REPLAY property=%s kind=%s digest=%s %s" % (r["property"], v.kind, ctx.digest(),
          "identical" if ctx.digest() == r.get("digest") else ""))
    print(v.detail)
    if "digest" in r and (attempts == 1 or v.kind != r["kind"]) and (v.kind != r["kind"] or ctx.digest() != r["digest"]):
        print("REPLAY differs from the recorded run")
        return 3
    print("VIOLATION property=%s replay=%s" % (r["property"], a.file))
    return 1


def selftest_main(a):
    """Determinism: every run twice, with other worker counts and block
    orders; event logs must be identical.  With --other-hash the second pass
    uses other PYTHONHASHSEED values."""
    import shutil
    import tempfile
    with open(os.path.join(core.VERIF, "checks", "meta.json")) as f:
        props = [p for p in json.load(f) if p != "default"]
    if a.props:
        props = a.props
    bad = 0
    for prop in props:
        meta = read_meta(prop)
        n = a.runs or 200
        ref = None
        for seed in range(1, 1 + a.seeds):
            got = []
            for jobs, shift in ((8, 0), (3, 0), (5, 1 if a.other_hash else 0)):
                d = tempfile.mkdtemp(prefix="selftest-")
                try:
                    res, errs = run_blocks(prop, seed, "quick", n, 16, jobs, d, 600, hashshift=shift)
                    if errs:
                        print(prop, "ERROR", errs[0])
                        bad += 1
                    got.append([x for r in res for x in r["digests"]])
                finally:
                    shutil.rmtree(d, ignore_errors=True)
            diff = sum(1 for x in zip(*got) if len(set(x)) != 1)
            lens = set(len(g) for g in got)
            print("selftest %s seed=%d runs=%d differing=%d lens=%s" % (prop, seed, n, diff, sorted(lens)))
            sys.stdout.flush()
            if diff or len(lens) != 1:
                bad += 1
    return 1 if bad else 0


def setup_main(a):
    """Nothing is built: the library is imported from the working tree."""
    p = subprocess.run([PY, "-W", "ignore", "-c", "import sys; sys.path.insert(0, %r); from sim.runner import boot; boot()" % core.VERIF],
                       env=env_for(0), cwd=core.VERIF)
    return p.returncode


def main(argv):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd")
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--runs", type=int)
    c.add_argument("--seed", type=int)
    c.add_argument("--tier")
    c.add_argument("--jobs", type=int)
    b = sub.add_parser("block")
    for n in ("prop", "tier", "out", "logdir"):
        b.add_argument("--" + n)
    for n in ("seed", "block", "start", "stop"):
        b.add_argument("--" + n, type=int)
    b.add_argument("--wall", type=float)
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("setup")
    s = sub.add_parser("selftest")
    s.add_argument("props", nargs="*")
    s.add_argument("--runs", type=int)
    s.add_argument("--seeds", type=int, default=1)
    s.add_argument("--other-hash", action="store_true")
    a = ap.parse_args(argv)
    return {"check": check_main, "block": block_main, "replay": replay_main, "selftest": selftest_main,
            "setup": setup_main}[a.cmd](a)
