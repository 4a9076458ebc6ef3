"""Core of the simulator: seeds, plans, violations, sharded runner, minimiser, evidence.

One run is a pure function of its plan (a small JSON value); a plan is a pure function of
(property, VERIF_SEED, run index).  Nothing here reads a clock or draws random numbers on
behalf of a run; the wall clock only bounds how many runs are started.
"""
import hashlib
import io
import json
import os
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PKG_DIR = os.path.join(REPO_SRC, "tight_binding_redweasel") + os.sep
KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    """The code under test broke the property.  `sig` is a stable identification."""

    def __init__(self, sig, msg, detail=None):
        super().__init__(f"{sig}: {msg}")
        self.sig = sig
        self.msg = msg
        self.detail = detail


class HarnessError(Exception):
    pass


class Ctx:
    """Collects what one run did."""

    def __init__(self):
        self.evals = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.samples = []
        self.log = hashlib.sha256()

    def ev(self, n=1):
        self.evals += n

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())
        self.log.update(repr(key).encode())

    def trace(self, *what):
        """event log of the run, only used to prove that a replay is exact"""
        self.log.update(repr(what).encode())

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def as_json(self):
        return {"evals": self.evals, "faults": self.faults, "probes": self.probes,
                "states": sorted(self.states), "simtime": self.simtime, "samples": self.samples,
                "log": self.log.hexdigest()}


def derive(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


def in_library(tb):
    """innermost library location of a traceback, or None"""
    loc = None
    for f, line in traceback.walk_tb(tb):
        if f.f_code.co_filename.startswith(PKG_DIR):
            loc = f.f_code.co_qualname
    return loc


class Capture(io.StringIO):
    """stdout of the code under test"""


def execute(scen, plan):
    """Run one plan. Returns (ctx, violation|None); harness errors propagate."""
    ctx = Ctx()
    old_out, old_err = sys.stdout, sys.stderr
    os.chdir(os.environ.get("VERIF_SCRATCH", "/"))       # a killed run may have left another directory
    sys.stdout = Capture()
    try:
        try:
            scen.run(plan, ctx)
            return ctx, None
        except Violation as v:
            return ctx, v
        except HarnessError:
            raise
        except Exception as e:
            loc = in_library(e.__traceback__)
            if loc is None:
                if isinstance(e, (OSError, MemoryError, ImportError)):
                    raise
                # on the unchanged tree no scenario stumbles: the library handed back something
                # the scenario cannot use (wrong type, shape, missing result)
                f = traceback.extract_tb(e.__traceback__)[-1]
                return ctx, Violation(f"unusable-result-{type(e).__name__}-in-{os.path.basename(f.filename)}",
                                      f"the library handed back something unusable: {type(e).__name__}: {e}",
                                      traceback.format_exc())
            return ctx, Violation(f"unexpected-{type(e).__name__}-in-{loc}",
                                  f"unexpected {type(e).__name__}: {e}",
                                  traceback.format_exc())
    finally:
        sys.stdout, sys.stderr = old_out, old_err


# ---------------------------------------------------------------- runner

RUN_HANG_SECONDS = float(os.environ.get("VERIF_HANG_SECONDS", "150"))


def _worker(scen, prop, seed, tier, indices, wfd, t_end):
    out = os.fdopen(wfd, "w", buffering=1)
    for i in indices:
        if time.monotonic() > t_end:
            break
        out.write(json.dumps({"start": i}) + "\n")
        try:
            plan = scen.plan(rng_for(prop, seed, i), i, tier)
            # plans go through JSON so that a replay file is the same thing
            plan = json.loads(json.dumps(plan))
            ctx, v = execute(scen, plan)
            r = {"i": i, "ctx": ctx.as_json()}
            if v is not None:
                r["violation"] = {"sig": v.sig, "msg": v.msg, "detail": v.detail}
                r["plan"] = plan
        except BaseException as e:
            r = {"i": i, "error": "".join(traceback.format_exception(e))[-4000:]}
        out.write(json.dumps(r) + "\n")
    out.write(json.dumps({"done": True}) + "\n")
    out.flush()


def run_batch(scen, prop, seed, tier, n, workers, wall):
    """Run plans 0..n-1 sharded over forked workers.  Returns list of results."""
    t0 = time.monotonic()
    t_end = t0 + wall
    procs = {}
    for w in range(workers):
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for p in procs.values():
                    try:
                        os.close(p["fd"])
                    except OSError:
                        pass
                devnull = os.open("/dev/null", os.O_WRONLY)
                os.dup2(devnull, 1)
                os.setpgid(0, 0)
                _worker(scen, prop, seed, tier, range(w, n, workers), wr, t_end)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs[w] = {"pid": pid, "fd": r, "buf": b"", "cur": None, "last": time.monotonic(), "done": False}
    results = []
    first_bad = None
    live = dict(procs)
    while live:
        rl, _, _ = select.select([p["fd"] for p in live.values()], [], [], 1.0)
        for w, p in list(live.items()):
            if p["fd"] in rl:
                chunk = os.read(p["fd"], 1 << 20)
                if not chunk:
                    os.close(p["fd"])
                    os.waitpid(p["pid"], 0)
                    if not p["done"] and not p.get("stopped"):
                        results.append({"i": p["cur"], "error": f"worker {w} died during run {p['cur']}"})
                    del live[w]
                    continue
                p["buf"] += chunk
                p["last"] = time.monotonic()
                while b"\n" in p["buf"]:
                    line, p["buf"] = p["buf"].split(b"\n", 1)
                    d = json.loads(line)
                    if "start" in d:
                        p["cur"] = d["start"]
                    elif d.get("done"):
                        p["done"] = True
                    else:
                        results.append(d)
                        if "violation" in d and not scen.is_known(d["violation"]["sig"]):
                            if first_bad is None or d["i"] < first_bad:
                                first_bad = d["i"]
            elif time.monotonic() - p["last"] > RUN_HANG_SECONDS and not p.get("stopped"):
                p["stopped"] = True
                _kill(p["pid"])
                results.append({"i": p["cur"], "hang": True})
        if first_bad is not None:
            for w, p in live.items():
                if p["cur"] is not None and p["cur"] > first_bad and not p.get("stopped"):
                    p["stopped"] = True
                    _kill(p["pid"])
    results.sort(key=lambda r: (r["i"] if r["i"] is not None else -1))
    return results, time.monotonic() - t0


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass


def run_isolated(scen, plan, limit=None):
    """Run one plan in a fresh forked child; returns dict like a worker result."""
    limit = limit or RUN_HANG_SECONDS
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            devnull = os.open("/dev/null", os.O_WRONLY)
            os.dup2(devnull, 1)
            out = os.fdopen(w, "w")
            try:
                ctx, v = execute(scen, plan)
                d = {"ctx": ctx.as_json()}
                if v is not None:
                    d["violation"] = {"sig": v.sig, "msg": v.msg, "detail": v.detail}
            except BaseException as e:
                d = {"error": "".join(traceback.format_exception(e))[-4000:]}
            out.write(json.dumps(d))
            out.flush()
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    t_end = time.monotonic() + limit
    while True:
        left = t_end - time.monotonic()
        if left <= 0:
            _kill(pid)
            os.close(r)
            os.waitpid(pid, 0)
            return {"hang": True}
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return {"error": "child died"}
    return json.loads(buf)


def minimise(scen, plan, sig, budget=40.0):
    """Greedy: take the first simpler plan which fails with the same signature class."""
    t_end = time.monotonic() + budget
    cls = sig.split("@")[0]
    steps = 0
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        for cand in _quiet_iter(scen.shrink(plan)):
            if time.monotonic() > t_end:
                break
            cand = json.loads(json.dumps(cand))
            if cand == plan:
                continue
            r = run_isolated(scen, cand, limit=min(60.0, RUN_HANG_SECONDS))
            steps += 1
            v = r.get("violation")
            if v is not None and v["sig"].split("@")[0] == cls:
                plan = cand
                improved = True
                break
    return plan, steps


def _quiet_iter(gen):
    """candidates of a generator that may run library code: no output, no exceptions"""
    while True:
        old = sys.stdout
        sys.stdout = Capture()
        try:
            c = next(gen)
        except StopIteration:
            return
        except Exception:
            return
        finally:
            sys.stdout = old
        yield c


def shrink_list(lst, min_len=0):
    """candidate shorter lists, most aggressive first"""
    n = len(lst)
    size = n
    while size >= 1:
        for s in range(0, n, size):
            c = lst[:s] + lst[s + size:]
            if min_len <= len(c) < n:
                yield c
        size //= 2


# ---------------------------------------------------------------- scenario base

class Scenario:
    prop = None
    level = "exploration"
    technique = "deterministic simulation with fault injection: seeded search over schedules, fault points and histories"
    level_note = None
    rule = ""
    assumptions = []
    real = "the library code imported from /repo/src"
    stubs = "none"
    quick_runs = 100
    quick_wall = 60.0
    thorough_factor = 12
    thorough_wall = 600.0
    max_workers = 8
    min_evals = 1

    def __init__(self):
        self.known = load_known(self.prop)

    def is_known(self, sig):
        return sig in self.known

    def plan(self, rng, i, tier):
        raise NotImplementedError

    def run(self, plan, ctx):
        raise NotImplementedError

    def shrink(self, plan):
        """default: every list in the plan may lose elements (key 'faults', 'ops')"""
        for key in ("faults", "ops"):
            if isinstance(plan.get(key), list):
                for c in shrink_list(plan[key], 1 if key == "faults" else 0):
                    p = dict(plan)
                    p[key] = c
                    yield p


def load_known(prop):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["signature"]: e for e in d.get("findings", []) if e["property"] == prop}


def write_evidence(scen, tier, seed, results, wall, violations, extra):
    evals = sum(r["ctx"]["evals"] for r in results if "ctx" in r)
    faults, probes = {}, {}
    states = set()
    simtime = 0.0
    samples = []
    for r in results:
        if "ctx" not in r:
            continue
        c = r["ctx"]
        for k, v in c["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in c["probes"].items():
            probes[k] = probes.get(k, 0) + v
        states.update(c["states"])
        simtime += c["simtime"]
        if len(samples) < 6:
            samples.extend(c["samples"][:1])
    runs = sum(1 for r in results if "ctx" in r)
    ev = {
        "property": scen.prop,
        "tier": tier,
        "seed": seed,
        "level": scen.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(states),
            "rule": scen.rule,
            "samples": samples,
            "simulated_runs": runs,
            "runs_per_hour": round(runs / max(wall, 1e-6) * 3600),
            "evaluations_per_hour": round(evals / max(wall, 1e-6) * 3600),
            "seeds": f"derived from VERIF_SEED={seed}, run index 0..{len(results) - 1}",
            "simulated_seconds": round(simtime, 3),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "real_components": scen.real,
            "stub_components": scen.stubs,
            **extra,
        },
        "wall_s": round(wall, 2),
        "violations": violations,
        "assumptions": list(scen.assumptions),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{scen.prop}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)
    return ev


def replay_path(prop, sig):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{prop}-{hashlib.sha256(sig.encode()).hexdigest()[:12]}.json")


def check(scen, tier, seed, runs=None, workers=None, wall=None):
    prop = scen.prop
    n = scen.quick_runs if tier == "quick" else scen.quick_runs * scen.thorough_factor
    if runs:
        n = runs
    wall_cap = wall or (scen.quick_wall if tier == "quick" else scen.thorough_wall)
    w = min(workers or scen.max_workers, os.cpu_count() or 1, n)
    results, took = run_batch(scen, prop, seed, tier, n, w, wall_cap)
    errors = [r for r in results if "error" in r]
    hangs = [r for r in results if r.get("hang")]
    bad = [r for r in results if "violation" in r]
    for r in hangs:
        # a run which makes no progress is confirmed before it is believed
        plan = json.loads(json.dumps(scen.plan(rng_for(prop, seed, r["i"]), r["i"], tier)))
        r2 = run_isolated(scen, plan, limit=RUN_HANG_SECONDS * 1.5)
        if r2.get("hang"):
            bad.append({"i": r["i"], "plan": plan, "violation": {
                "sig": "hang", "msg": "the run never finishes", "detail": None}})
        elif "violation" in r2:
            bad.append({"i": r["i"], "plan": plan, "violation": r2["violation"]})
    known_hit = {}
    new = []
    for r in bad:
        sig = r["violation"]["sig"]
        if scen.is_known(sig):
            known_hit[sig] = scen.known[sig]
        else:
            new.append(r)
    for sig, e in sorted(scen.known.items()):
        if sig in known_hit:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    vio = []
    seen = set()
    new.sort(key=lambda r: r["i"])
    for r in new:
        v = r["violation"]
        cls = v["sig"].split("@")[0]
        if cls in seen or len(seen) >= 3:
            continue
        seen.add(cls)
        plan = r["plan"]
        if v["sig"] != "hang":
            plan, steps = minimise(scen, plan, v["sig"], budget=40.0 if tier == "quick" else 120.0)
            again = run_isolated(scen, plan)
            fv = again.get("violation") or v
        else:
            fv = v
        path = replay_path(prop, fv["sig"])
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "run": r["i"], "tier": tier, "signature": fv["sig"],
                       "message": fv["msg"], "detail": fv.get("detail"), "plan": plan}, f, indent=1)
        vio.append({"signature": fv["sig"], "message": fv["msg"], "replay": path})
        print(f"  seed={seed} run={r['i']} {fv['sig']}: {fv['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    ev = write_evidence(scen, tier, seed, results, took, len(vio), {
        "workers": w, "violations_found": vio, "harness_errors": len(errors),
        "known_findings_hit": sorted(known_hit)})
    print(f"{prop} {tier}: {ev['coverage']['simulated_runs']} runs, {ev['coverage']['evaluations']} evaluations, "
          f"{ev['coverage']['distinct_nontrivial']} distinct, {took:.1f}s, faults {ev['coverage']['faults_injected']}, "
          f"probes {ev['coverage']['probes']}")
    if vio:
        return 1
    if errors:
        for r in errors[:3]:
            print(f"harness error in run {r['i']}:\n{r['error']}", file=sys.stderr)
        return 2
    if ev["coverage"]["evaluations"] < scen.min_evals:
        print("too few evaluations finished", file=sys.stderr)
        return 2
    return 0


def do_replay(scen, path):
    with open(path) as f:
        d = json.load(f)
    a = run_isolated(scen, d["plan"])
    v = a.get("violation")
    if a.get("hang"):
        v = {"sig": "hang", "msg": "the run never finishes", "detail": None}
    if v is None:
        if "error" in a:
            print(a["error"], file=sys.stderr)
            return 2
        print(f"replay of {path}: property holds on this tree")
        return 0
    print(f"  {v['sig']}: {v['msg'][:2000]}")
    if v.get("detail"):
        print(v["detail"])
    print(f"VIOLATION property={scen.prop} replay={path}")
    return 1
