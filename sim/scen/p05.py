"""P05: an interrupted fit hands back the model of a completed step and a true log."""
import io
import sys

import numpy as np
from tight_binding_redweasel import AsymTightBindingModel, BandStructureModel, HamiltonianSymmetry, Symmetry
from tight_binding_redweasel import logger as tb_logger
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation

from .. import models
from ..core import Scenario, Violation, rng_for, shrink_list
from ..interrupt import Tracer, stratify


def gen(rng):
    cls = rng.choice(["asym", "band"])
    dim = rng.choice([1, 2, 3])
    n = rng.randint(2, 4)
    nb = rng.randint(1, 3)
    p = {"cls": cls, "opt": rng.choice(["optimize", "optimize_cg"]), "seed": rng.randrange(1 << 30), "iterations": rng.choice(
        [0, 1, 2, 3, 4]), "log": rng.choice(["off", "on", "own", "count", "lines"]), "weights": rng.choice(["one", "per-band"]),
        "keep_zeros": rng.random() < 0.25, "threshold": rng.choice([0.0, 0.0, 1e-3, 0.3]), "perfect": rng.random() < 0.08}
    spec = {"cls": cls, "seed": rng.randrange(1 << 30), "dim": dim, "n": n, "nb": nb}
    if cls == "asym":
        spec["overlap"] = rng.random() < 0.3
        if spec["overlap"] and rng.random() < 0.4:
            spec["sn"] = rng.choice([1, n + 1])
    else:
        spec["sym"] = rng.choice(["none", "none", "inversion", "oh"])
        spec["exp"] = spec["sym"] == "oh" or rng.random() < 0.5
        spec["cos_reduced"] = spec["sym"] != "oh" and rng.random() < 0.4
        if spec["sym"] == "oh":
            spec.update(dim=3, nb=rng.choice([3, 4]), n=2)
    p["spec"] = spec
    p["nref"] = rng.randint(1, spec["nb"])
    p["offset"] = rng.randint(0, spec["nb"] - p["nref"])
    kw = {}
    if p["opt"] == "optimize":
        kw["batch_div"] = rng.choice([1, 1, 1, 2, 3])
        kw["use_pinv"] = rng.random() < 0.7
        kw["regularization"] = rng.choice([1.0, 1.0, 1.0, 0.9])
        kw["max_accel_global"] = rng.choice([None, None, 1.0, 5.0])
        kw["learning_rate"] = rng.choice([1.0, 0.5])
        if cls == "asym":
            kw["use_lstsq_stepsize"] = kw["batch_div"] == 1 and rng.random() < 0.4
        elif rng.random() < 0.2:
            kw["train_k0"] = False
    else:
        kw["precond"] = rng.random() < 0.6
        kw["max_cg_iterations"] = rng.choice([1, 5])
    p["kw"] = kw
    return p


def build(plan):
    spec = plan["spec"]
    if spec["cls"] == "asym":
        m = models.make(spec)
    elif spec["sym"] == "oh":
        UR = UnitaryRepresentation
        h = HamiltonianSymmetry(Symmetry.cubic(True))
        if spec["nb"] == 4:
            h.append(UR.one_dim(True, False), [0, 0, 0], "s")
        h.append(UR.o3(), [0, 0, 0], "p")
        nei = Symmetry.cubic(True).complete_neighbors(models.NEIGH[3][:spec["n"]])
        m = BandStructureModel.init_tight_binding(Symmetry.none(), nei, spec["nb"], exp=True)
        r = models.rs(spec["seed"])
        par = r.standard_normal(m.params.shape) + 1j * r.standard_normal(m.params.shape)
        par[0] = par[0] + par[0].conj().T
        m.symmetrizer = h.symmetrizer(np.asarray(nei))
        m.params = m.symmetrizer(par)
    else:
        m = models.make(spec)
    if plan["keep_zeros"]:
        r = models.rs(plan["seed"] + 5)
        if spec["cls"] == "asym":
            mask = r.uniform(size=m.H.H_r.shape) < 0.7
            m.H.H_r = np.where(mask & mask.transpose(0, 2, 1), m.H.H_r, 0)
        elif spec["sym"] != "oh":
            mask = r.uniform(size=m.params.shape) < 0.7
            m.params = np.where(mask & mask.transpose(0, 2, 1), m.params, 0)
    return m


def data(plan, m):
    r = models.rs(plan["seed"] + 1)
    dim = plan["spec"]["dim"]
    k = r.uniform(-0.5, 0.5, (9 + 3 * plan["spec"]["n"] * dim, dim))
    k[0] = 0
    nb = plan["spec"]["nb"]
    if plan["perfect"]:
        full = m(k)
    else:
        full = np.sort(m(k) * 0.8 + 0.5 * r.standard_normal((1, nb)) + 0.1 * np.cos(2 * np.pi * k).sum(-1)[:, None], axis=-1)
    ref = full[:, plan["offset"]:][:, :plan["nref"]]
    w = 1.0 if plan["weights"] == "one" else np.linspace(0.5, 1.5, plan["nref"])
    return k, np.ascontiguousarray(ref), w


def make_log(plan):
    k = plan["log"]
    if k == "off":
        return False
    if k == "on":
        return True
    lg = tb_logger.OptimisationLogger(print_loss=k != "own", update_line=k != "lines", verbose=k != "own")
    if k == "count":
        lg.count = True
        lg.add_data(0, 123.0, np.array([1.0]))
    return lg


def fit(plan, m, k, ref, w, iterations, log):
    kw = dict(plan["kw"], convergence_threshold=plan["threshold"], loss_threshold=0.0 if plan["perfect"] else 1e-16,
              keep_zeros=plan["keep_zeros"], log=log)
    if plan["opt"] == "optimize":
        return m.optimize(k, 1.0, ref, w, plan["offset"], iterations, **kw)
    if plan["cls"] == "asym":
        return m.optimize_cg(k, ref, w, plan["offset"], iterations, **kw)
    return m.optimize_cg(k, 1.0, ref, w, plan["offset"], iterations, **kw)


def weights(plan, w):
    return np.broadcast_to(np.ravel(w), (plan["nref"],))


class SCENARIO(Scenario):
    prop = "P05"
    level = "fault_enumeration"
    rule = ("distinct (class, optimiser, options, code place the interrupt hit, outcome returned/escaped, completed steps); "
            "uninterrupted runs do not count")
    assumptions = ["interrupts arrive where CPython 3.12 checks for signals (after a call into C, at a function start, at a loop end)",
                   "one interrupt per fit; a log object that was already aborted by an earlier interrupt is not reused",
                   "the model starts out hermitian (a fit makes it so before its first step)"]
    stubs = "the interrupt is raised at a chosen instruction of the fit"
    quick_runs = 240
    quick_wall = 45.0
    min_evals = 40

    def plan(self, rng, i, tier):
        p = gen(rng)
        p["limit"] = 45 if tier == "quick" else 200
        p["places"] = None
        return p

    def run(self, plan, ctx):
        rng = rng_for("p05", plan["seed"])
        start = build(plan)
        k, ref, w = data(plan, start)
        test_k = np.concatenate([k[:4], models.kpoints(plan["spec"]["dim"], 4)])
        b_start = start(test_k)
        refs = []
        try:
            fit(plan, build(plan), k, ref, w, 0, make_log(plan))
        except np.linalg.LinAlgError:
            ctx.probe("singular-data")      # the preconditioner does not exist for these samples
            return
        for it in range(plan["iterations"] + 1):
            m = build(plan)
            lg = fit(plan, m, k, ref, w, it, make_log(plan))
            self.log_ok(plan, m, lg, k, ref, w, "uninterrupted")
            if lg.aborted:
                raise Violation("log-aborted-without-interrupt", "the log of an uninterrupted fit is marked as aborted")
            refs.append(m(test_k))
        scale = max([np.max(np.abs(b)) for b in refs + [b_start]] + [1.0])
        if not np.isfinite(scale) or scale > 1e6:
            return      # a diverging fit says nothing
        m = build(plan)
        with Tracer("KI", None) as t:
            fit(plan, m, k, ref, w, plan["iterations"], make_log(plan))
        if np.max(np.abs(m(test_k) - refs[-1])) > 1e-9 * scale:
            raise Violation("not-repeatable", "the same uninterrupted fit gave different bands")
        places = plan["places"]
        if places is None:
            places = stratify(t.points, rng, plan["limit"])
        for at in places:
            if at >= t.n:
                continue
            m = build(plan)
            raw0 = models.raw(m)
            lg = make_log(plan)
            ctx.ev()
            ctx.fault("KI")
            out, ret = "returned", None
            tr = Tracer("KI", at)
            old_out = sys.stdout
            try:
                try:
                    with tr:
                        ret = fit(plan, m, k, ref, w, plan["iterations"], lg)
                except KeyboardInterrupt:
                    out = "escaped"
            except Exception as e:
                raise Violation("other-exception", f"interrupt at {tr.fired}: the fit raised {type(e).__name__}: {e} "
                                f"({plan['cls']}.{plan['opt']})", {"place": at, "at": tr.fired})
            finally:
                sys.stdout = old_out
            where = f"{plan['cls']}.{plan['opt']} interrupted at {tr.fired}"
            if tr.fired is None:
                continue
            try:
                b = m(test_k)
            except Exception as e:
                raise Violation("model-unusable", f"{where}: the model cannot be evaluated: {type(e).__name__}: {e}",
                                {"place": at})
            good = [i for i, rb in enumerate(refs) if np.max(np.abs(b - rb)) <= 1e-8 * scale]
            if not good and out == "escaped" and plan["spec"].get("sym") == "inversion" and plan["spec"]["exp"]:
                # this form is projected on hermitian matrices by the final normalisation, which is part of the fit
                m.normalize()
                b = m(test_k)
                good = [i for i, rb in enumerate(refs) if np.max(np.abs(b - rb)) <= 1e-8 * scale]
            if not good and not (out == "escaped" and np.max(np.abs(b - b_start)) <= 1e-8 * scale):
                d = [float(np.max(np.abs(b - rb))) for rb in refs]
                raise Violation("not-a-whole-step", f"{where} ({out}): the bands are those of no whole number of steps, "
                                f"distances {d}", {"place": at, "at": tr.fired})
            if out == "returned":
                if not isinstance(ret, tb_logger.OptimisationLogger):
                    raise Violation("no-log", f"{where}: returned {type(ret).__name__} instead of the log")
                if not ret.aborted:
                    raise Violation("not-marked-aborted", f"{where}: the returned log is not marked as aborted", {"place": at})
                self.log_ok(plan, m, ret, k, ref, w, where)
                if rng.random() < 0.1:
                    m.normalize()
                    d = models.bands_diff(m, b, test_k, 1e-8)
                    if d:
                        raise Violation("model-unusable", f"{where}: normalising the returned model changes it: {d}")
            elif not isinstance(lg, bool) and len(lg.iterations) != len(lg.loss):
                raise Violation("log-not-parallel", f"{where}: {len(lg.iterations)} iterations but {len(lg.loss)} losses",
                                {"place": at})
            ctx.probe(out)
            ctx.state(plan["cls"], plan["opt"], str(sorted(plan["kw"].items())), plan["spec"].get("sym"), plan["keep_zeros"],
                      tr.fired[0], tr.fired[1], out, good[:1], plan["log"])
            ctx.trace(at, tr.fired, out, good)
            ctx.sample({"fit": f"{plan['cls']}.{plan['opt']}", "interrupt": tr.fired, "outcome": out, "steps": good[:1],
                        "of": plan["iterations"]})

    def log_ok(self, plan, m, lg, k, ref, w, where):
        if len(lg.iterations) != len(lg.loss) or not lg.loss:
            raise Violation("log-not-parallel", f"{where}: {len(lg.iterations)} iterations but {len(lg.loss)} losses")
        l = m.error(k, ref, weights(plan, w), plan["offset"])[0]
        if not abs(lg.last_loss() - l) <= 1e-9 * max(1.0, abs(l)):
            raise Violation("last-loss-wrong", f"{where}: last logged loss {lg.last_loss()} but the model has loss {l}")
        if list(lg.iterations) != sorted(lg.iterations):
            raise Violation("log-iterations-unordered", f"{where}: iterations in the log: {lg.iterations}")

    def shrink(self, plan):
        if plan["places"] is None:
            rng = rng_for("p05", plan["seed"])
            m = build(plan)
            k, ref, w = data(plan, m)
            with Tracer("KI", None) as t:
                fit(plan, build(plan), k, ref, w, plan["iterations"], make_log(plan))
            yield dict(plan, places=stratify(t.points, rng, plan["limit"]))
        else:
            for c in shrink_list(plan["places"], 1):
                yield dict(plan, places=c)
        if plan["iterations"] > 1:
            yield dict(plan, iterations=plan["iterations"] - 1, places=None)
        for key, v in (("log", "off"), ("keep_zeros", False), ("weights", "one")):
            if plan[key] != v:
                yield dict(plan, **{key: v}, places=None)
