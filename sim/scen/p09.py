"""P09: an automatic fit can be killed at any time without losing announced checkpoints."""
import os

import numpy as np
from tight_binding_redweasel import AsymTightBindingModel

from .. import campaign, models, saving
from .. import fs as simfs
from ..core import Scenario, Violation, rng_for, shrink_list
from ..fs import APPLIES, Fault
from ..interrupt import Tracer

ERRS = ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "EMFILE"]
TOL = 1e-12     # coefficients below 1e-14 are stored as zero


def canon(c):
    """content with one representative for each pair R, -R"""
    out = {}
    for r, h in c.items():
        if isinstance(r, str):
            return c
        n = tuple(-x + 0.0 for x in r)
        if r < n:
            r, h = n, np.conj(np.asarray(h).T)
        out[r] = h
    return out


class SCENARIO(Scenario):
    prop = "P09"
    level = "fault_enumeration"
    rule = "distinct (stage, fault kind, file operation or code place hit, which checkpoint survived) tuples"
    assumptions = [
        "the k-points are independent enough for the preconditioner of the fit (checked per plan)",
        "after a process kill all data handed to write(2) survives; after a power loss only fsynced data is certain",
        "after an interrupt the run may continue or end with any exception",
    ]
    stubs = ("disk crash semantics (journal over a real scratch directory), errno injection, wall clock, random draws "
             "(seeded, all zero, extreme), terminal")
    quick_runs = 44
    quick_wall = 90.0
    thorough_wall = 420.0
    min_evals = 40

    def plan(self, rng, i, tier):
        hard = rng.random() < 0.25
        for _ in range(50):
            spec = campaign.gen_spec(rng)
            if hard:
                # restarts which end differently
                spec.update(hard=True, nb=rng.choice([2, 3]), restarts=rng.choice([3, 4, 6]), randomize=False, flat=None)
            if campaign.Data(spec).usable():
                break
        if tier == "quick" and rng.random() < 0.4:
            # tracing makes a fit much slower: interrupt the small ones
            spec.update(randomize=False, restarts=min(spec["restarts"], 2), below=min(spec["below"], 1), above=0)
            interrupts = 1
        else:
            interrupts = 0 if tier == "quick" else 4
        return {"spec": spec, "seed": rng.randrange(1 << 30), "crashes": 30 if tier == "quick" else 120,
                "errors": 3 if tier == "quick" else 10, "interrupts": interrupts, "faults": None}

    def run(self, plan, ctx):
        simfs.quiet_unraisable()
        rng = rng_for("p09", plan["seed"])
        spec = plan["spec"]
        data = campaign.Data(spec)
        self.spec, self.data = spec, data
        root = simfs.scratch("fit")
        self.aux = simfs.scratch("aux")
        try:
            dry = campaign.Run(spec, data, root).go()
            if dry.clock.jumps:
                ctx.fault("clock-jump", dry.clock.jumps)
            if spec["draw"] != "seeded":
                ctx.fault("draw-" + spec["draw"])
            self.check_run(dry, ctx, True)
            self.fs = dry.fs
            faults = plan["faults"]
            if faults is None:
                faults = self.faults(plan, dry, rng)
            n_points = None
            for f in faults:
                if f["kind"] in ("kill", "power"):
                    self.crash(f, dry, ctx, plan)
                elif f["kind"] == "KI":
                    if n_points is None:
                        simfs.write_state(root, {})
                        t = Tracer("KI", None, prefixes=saving.STDLIB, exclude=saving.EXCLUDE, record=False)
                        campaign.Run(spec, data, root, tracer=t).go()
                        n_points = t.n
                    self.live(f, root, ctx, n_points)
                else:
                    self.live(f, root, ctx, None)
        finally:
            simfs.drop(root)
            simfs.drop(self.aux)

    def faults(self, plan, dry, rng):
        out = []
        J, O = len(dry.fs.journal), len(dry.fs.oplog)
        for _ in range(plan["crashes"]):
            out.append({"kind": rng.choice(["kill", "power", "power"]), "at": rng.randint(0, J), "draw": rng.randrange(1 << 30),
                        "restart": rng.random() < 0.03})
        for _ in range(plan["errors"]):
            e = rng.choice(ERRS)
            fits = [n for n, k in enumerate(dry.fs.oplog) if k in APPLIES[e]]
            if fits:
                out.append({"kind": e, "at": rng.choice(fits), "arg": rng.choice([0.3, 0.8]), "sticky": rng.random() < 0.5,
                            # a folder which can't be opened can't be synced: no promise for a power loss then
                            "after": rng.choice([None, "kill", "kill" if e == "EACCES" else "power"]), "draw": rng.randrange(1 << 30)})
        for _ in range(plan["interrupts"]):
            out.append({"kind": "KI", "frac": round(rng.random(), 6), "after": rng.choice([None, None, "power", "kill"]),
                        "draw": rng.randrange(1 << 30)})
        return out

    def load(self, b, what):
        p = os.path.join(self.aux, "c.json")
        with open(p, "wb") as f:
            f.write(b)
        try:
            m = AsymTightBindingModel.load(p)
            return canon(models.content(m))
        except Exception as e:
            raise Violation(f"checkpoint-unreadable-{what}", f"checkpoint can't be loaded: {type(e).__name__}: {e}")

    def stage(self, path):
        """0 for the start file, else the number of neighbours in the name"""
        base = f"asym_{self.spec['name']}_"
        if not path.startswith(base) or not path.endswith(".json"):
            raise Violation("checkpoint-name", f"checkpoint {path} is not named after the run")
        s = path[len(base):-5]
        return 0 if s == "start" else int(s)

    def shape_ok(self, path, c):
        spec, d = self.spec, self.data
        st = self.stage(path)
        count = spec["start"] + 1 if st == 0 else st
        nb = spec["below"] + spec["nb"] + spec["above"]
        want = canon({tuple(float(x) + 0.0 for x in np.round(v, 9)): 0 for v in d.sym.complete_neighbors(d.src[:count])})
        if set(want) != set(c):
            return f"neighbours of {path}: {sorted(map(str, set(c)))}, documented {sorted(map(str, set(want)))}"
        for r, h in c.items():
            if np.shape(h) != (nb, nb):
                return f"{path}: matrices {np.shape(h)} for {nb} bands"
            if not np.all(np.isfinite(h)):
                return f"{path}: not finite"
        h0 = c[tuple([0.0] * spec["dim"])]
        if np.max(np.abs(h0 - np.conj(h0.T))) > 1e-12 * max(1.0, np.max(np.abs(h0))):
            return f"{path}: constant matrix is not hermitian"
        return None

    def check_run(self, run, ctx, complete):
        """what holds for the announcements of any run"""
        ctx.simtime += run.clock.passed
        spec, d = self.spec, self.data
        prev = 0
        for n, s in enumerate(run.saved):
            ctx.ev()
            if s["bytes"] is None:
                raise Violation("announced-missing", f"{s['path']} was announced as saved but doesn't exist")
            s["content"] = c = self.load(s["bytes"], "announced")
            st = self.stage(s["path"])
            bad = self.shape_ok(s["path"], c)
            if bad:
                raise Violation("checkpoint-shape", bad)
            if st < prev:
                raise Violation("stage-order", f"stage {st} announced after stage {prev}")
            prev = st
            ctx.state("announced", st, spec["randomize"], spec["below"], spec["above"])
            if not complete:
                continue
            if st == 0:
                final = [x for x in self.restart_losses(run, s["fits"])]
                if not any(models.content_diff(c, canon(x), TOL) is None for x in s["all"]):
                    raise Violation("announced-stale", f"{s['path']} is none of the fitted models")
                p = os.path.join(self.aux, "m.json")
                with open(p, "wb") as f:
                    f.write(s["bytes"])
                loss = float(AsymTightBindingModel.load(p).loss(d.k, d.bands, d.weights, spec["below"]))
                # (eigenvalues are only known up to rounding relative to the biggest number in the matrices)
                rounding = 1e-14 * max(float(np.max(np.abs(h))) for h in c.values()) * float(np.max(d.weights))
                if final and loss > min(final) * (1 + 1e-6) + 1e-9 + rounding:
                    raise Violation("not-the-best-restart", f"the run starts from a model with loss {loss:.6e}, "
                                                            f"its restarts ended with {['%.6e' % x for x in final]}")
            else:
                diff = models.content_diff(c, canon(s["last"]), TOL)
                if diff:
                    raise Violation("announced-stale", f"{s['path']} doesn't hold the model of that moment: {diff}")
        if not complete:
            return
        ctx.ev()
        stages = sorted(set(self.stage(s["path"]) for s in run.saved))
        first, last = spec["start"] + 1, len(d.src)
        want = [0] + (list(range(first, last + 1)) if first < last else [])
        if stages != want:
            raise Violation("stages", f"stages {stages} were announced, documented are {want}")
        if run.result is None:
            raise Violation("no-result", f"the run returned nothing ({run.raised})")
        diff = models.content_diff(canon(models.content(run.result)), run.saved[-1]["content"], TOL)
        if diff:
            raise Violation("result-is-not-last-checkpoint", f"returned model and {run.saved[-1]['path']}: {diff}")
        ctx.sample({"stages": stages, "saves": len(run.saved), "file_operations": len(run.fs.oplog), "spec": spec})

    def restart_losses(self, run, n):
        """final loss of each restart: the last fit to all k-points, before another model or another start with few k-points"""
        last, number, before = {}, 0, None
        for m, nk, loss in run.fits[:n]:
            if before is not None and (m is not before[0] or nk < before[1]):
                number += 1
            before = (m, nk)
            if nk == len(self.data.k):
                last[number] = loss
        return list(last.values())

    def survivors(self, state, run, at, what, fits=None):
        """all announced files are complete checkpoints of the announced or a later moment of the stage"""
        for path in dict.fromkeys(s["path"] for s in run.saved if s["at"] <= at):
            mine = [s for s in run.saved if s["path"] == path]
            announced = sum(s["at"] <= at for s in mine)
            b = state.get(path)
            if b is None:
                raise Violation(f"announced-lost-{what}", f"{path} was announced but is gone after {what}")
            c = self.load(b, what)
            ok = None
            for i, s in enumerate(mine):
                if models.content_diff(c, s["content"]) is None:
                    ok = i
            if ok is None and announced == len(mine) and run.raised:
                # a save was under way: it has to be a complete model of the stage
                bad = self.shape_ok(path, c)
                if bad:
                    raise Violation(f"announced-damaged-{what}", f"after {what}: {bad}")
                last = run.saved[-1]["fits"]
                if any(models.content_diff(c, canon(models.content(m)), TOL) is None for m, _, _ in run.fits[last:]):
                    continue
                raise Violation(f"announced-replaced-{what}", f"after {what} {path} holds a model the fit never had")
            if ok is None:
                raise Violation(f"announced-replaced-{what}", f"after {what} {path} is none of its checkpoints")
            if ok < announced - 1:
                raise Violation(f"announced-outdated-{what}", f"after {what} {path} is checkpoint {ok + 1}, {announced} were announced")

    def crash(self, f, dry, ctx, plan):
        at = min(f["at"], len(dry.fs.journal))
        state = dry.fs.crash_state(f["kind"], rng_for("crash", f["draw"]), at)
        ctx.ev()
        ctx.fault(f["kind"])
        op = dry.fs.journal[at - 1][0] if at else "begin"
        ctx.state("crash", f["kind"], op, sum(s["at"] <= at for s in dry.saved))
        self.survivors(state, dry, at, f["kind"])
        if f.get("restart"):
            root = simfs.scratch("again")
            try:
                simfs.write_state(root, state)
                again = campaign.Run(self.spec, self.data, root).go()
                ctx.fault("restart")
                self.check_run(again, ctx, True)
            finally:
                simfs.drop(root)

    def live(self, f, root, ctx, n_points):
        simfs.write_state(root, {})
        t = None
        if f["kind"] == "KI":
            t = Tracer("KI", min(int(f["frac"] * n_points), n_points - 1), prefixes=saving.STDLIB, exclude=saving.EXCLUDE, record=False)
            run = campaign.Run(self.spec, self.data, root, tracer=t).go()
            fired = t.fired and t.fired[:2]
        else:
            run = campaign.Run(self.spec, self.data, root, fault=Fault(f["at"], f["kind"], f["sticky"], f["arg"])).go()
            fired = run.fs.fired and run.fs.fired[0][1:]
        if not fired:
            return
        ctx.ev()
        ctx.fault("interrupt" if t else f["kind"])
        ctx.state("live", f["kind"], fired, run.raised, len(run.saved))
        ctx.trace(f, fired, run.raised, len(run.saved))
        # what was announced was true
        self.check_run(run, ctx, False)
        if f["after"]:
            state = run.fs.crash_state(f["after"], rng_for("crash", f["draw"]))
            ctx.fault(f["after"])
        else:
            state = {}
            for dp, _, names in os.walk(root):
                for n in names:
                    with open(os.path.join(dp, n), "rb") as fh:
                        state[os.path.relpath(os.path.join(dp, n), root)] = fh.read()
        self.survivors(state, run, len(run.fs.journal), f["kind"] + ("-then-" + f["after"] if f["after"] else ""))

    def shrink(self, plan):
        simfs.quiet_unraisable()
        if plan["faults"] is None:
            yield dict(plan, faults=[])
            rng = rng_for("p09", plan["seed"])
            root = simfs.scratch("fit")
            try:
                dry = campaign.Run(plan["spec"], campaign.Data(plan["spec"]), root).go()
                fl = self.faults(plan, dry, rng)
            finally:
                simfs.drop(root)
            for f in fl:
                yield dict(plan, faults=[f])
            return
        s = plan["spec"]
        for k, v in (("nb", 1), ("restarts", 1), ("randomize", False), ("below", 0), ("above", 0), ("clock", "steady"),
                     ("draw", "seeded"), ("nsrc", 2), ("dim", 1), ("start", 0)):
            if s[k] != v:
                n = dict(s, **{k: v})
                if n["sym"] in ("mirror", "perm3") and n["dim"] == 1:
                    n["sym"] = "none"
                if n["start"] < n["nsrc"] and campaign.Data(n).usable():
                    yield dict(plan, spec=n)
