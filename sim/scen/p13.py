"""P13: density-of-states queries never disturb later answers."""
import numpy as np
from tight_binding_redweasel import bulk_properties, density_of_states

from .. import dosmodels
from ..core import Scenario, Violation, rng_for, shrink_list
from ..interrupt import Tracer
from .p12 import Flaky, GFails

FS = [(p, w, g, n) for p in (True, False) for w in (False,) for g in (False, True) for n in (None, "band", "total")] + \
     [(True, True, False, None), (False, True, True, None), (True, True, True, "total"), (True, False, False, "bad")]


class FlakyPlain:
    def __init__(self, m):
        self.m, self.count, self.at = m, 0, None

    def __call__(self, k):
        n = self.count
        self.count += 1
        if n == self.at:
            raise GFails("simulated: the model failed")
        return self.m(k)


class FlakyAll(Flaky):
    def __call__(self, k):
        self._tick()
        return self.m(k)


def gen_query(rng):
    q = {"q": rng.choice(["states_below", "states_below_band", "states_density", "density", "density_band", "density_bands",
                          "cut_band_indices", "full_curve", "full_curve", "k_resolved_density", "fermi_energy", "fermi_energy",
                          "bandgap", "energy_range", "chemical_potential", "chemical_potential", "energy", "seebeck",
                          "heat_capacity", "fss", "fss", "fss", "fss", "fss", "model_bandcount", "check", "volume", "dvolume",
                          "volume_dvolume", "samples", "samples", "kintegral", "convolve_df", "convolve_ddf", "naive"])}
    q["x"] = round(rng.random(), 3)
    q["band"] = rng.randrange(3)
    q["T"] = rng.choice([0, 50, 300, 3000])
    q["Ts"] = rng.choice([[0], [300], [0, 300, 310], [100, 1000, 50000], [3e5, 4e5]])
    q["arr"] = rng.random() < 0.6
    q["whole"] = rng.random() < 0.2
    q["fs"] = rng.randrange(len(FS))
    q["obj"] = int(rng.random() < 0.3)
    q["fine"] = rng.choice([0, 0, 0, 1, 2])     # numbers of points and tolerances
    return q


class SCENARIO(Scenario):
    prop = "P13"
    level = "exploration"
    rule = "distinct (smearing, last three queries) and (query, fault kind, code place hit) tuples"
    assumptions = ["three dimensional models; answers agree to 1e-9 of the largest entry; a query which fails on a fresh "
                   "object (not implemented, no convergence) has to fail the same way later"]
    stubs = "interrupts and allocation failures at instruction granularity, failing model evaluation, callers overwriting returned arrays"
    quick_runs = 700
    quick_wall = 60.0
    min_evals = 300
    TOL = 1e-9
    buffers = None

    def plan(self, rng, i, tier):
        spec = dosmodels.gen_spec(rng)
        spec["N"] = rng.choice([4, 4, 6])
        ops = []
        for _ in range(rng.randint(3, 10 if tier == "quick" else 20)):
            o = gen_query(rng)
            if rng.random() < 0.45:
                o["fault"] = rng.choice(["KI", "KI", "ME", "ME", "model"])
                o["at"] = round(rng.random(), 4)
            o["scribble"] = rng.random() < 0.35
            ops.append(o)
            if rng.random() < 0.4:
                # the same again, or with one thing changed
                d = dict(o, fault=None)
                if rng.random() < 0.5:
                    k = rng.choice(["fine", "fine", "Ts", "T", "x", "band", "whole", "obj", "fs", "arr", "near", "near"])
                    if k == "near":
                        # almost the same energy, electron number
                        d["x"] = o["x"] + rng.choice([-1, 1]) * rng.choice([1e-3, 1e-4, 1e-5])
                    else:
                        d[k] = gen_query(rng)[k]
                ops.append(d)
        return {"spec": spec, "second": dict(dosmodels.gen_spec(rng), N=4), "ops": ops, "seed": rng.randrange(1 << 30)}

    # a query, as a function of the object; arrays handed over are returned for inspection
    def ask(self, dos, o):
        q = o["q"]
        nb = dos.model_bandcount()
        e0, e1 = dos.energy_range()
        e = e0 + (e1 - e0) * (1.1 * o["x"] - 0.05)
        b = o["band"] % nb
        el = float(round(o["x"] * nb)) if o["whole"] else 0.02 + o["x"] * (nb - 0.04)
        fine = o["fine"]
        if o["arr"]:
            # the array of the caller: the same object with other contents
            Ts = np.zeros(len(o["Ts"])) if self.buffers is None else self.buffers.setdefault(len(o["Ts"]), np.zeros(len(o["Ts"])))
            Ts[:] = o["Ts"]
        else:
            Ts = list(o["Ts"])
        given = [Ts]
        r = None
        if q in ("states_below", "states_density", "density", "density_bands", "cut_band_indices"):
            r = getattr(dos, q)(e)
        elif q in ("states_below_band", "density_band"):
            r = getattr(dos, q)(e, b)
        elif q == "full_curve":
            r = dos.full_curve(N=2 + o["band"], T=o["T"])
        elif q == "k_resolved_density":
            r = dos.k_resolved_density(e, o["T"], N=4 + fine)
        elif q == "fermi_energy":
            r = dos.fermi_energy(el, **[{}, {"tol": 1e-2}, {"maxsteps": 2}][fine])
        elif q == "bandgap":
            r = dos.bandgap(el)
        elif q in ("energy_range", "model_bandcount"):
            r = getattr(dos, q)()
        elif q == "chemical_potential":
            r = dos.chemical_potential(el, Ts, N=8 + 3 * fine, **({"tol": 1e-3} if fine == 2 else {}))
        elif q == "energy":
            r = dos.energy(e, o["T"], N=8 + 2 * fine, spin_factor=2 if fine < 2 else 1)
        elif q == "seebeck":
            r = dos.seebeck(el, Ts, N=6 + fine, h=1e-4 if fine < 2 else 1e-2)
        elif q == "heat_capacity":
            r = dos.heat_capacity(el, o["T"], N=8 + 2 * fine, **({"spin_factor": 1, "h": 1e-2} if fine == 2 else {}))
        elif q == "fss":
            p, w, g, n = FS[o["fs"]]
            r = dos.fermi_surface_samples(e, improved_points=p, improved_weights=w, weight_by_gradient=g, normalize=n)
        elif q == "check":
            r = dos.check(1e-6)
        elif q in ("volume", "dvolume", "volume_dvolume", "samples"):
            r = getattr(dos.smearing[b], q)(e)
        elif q == "kintegral":
            ki = bulk_properties.KIntegral(dos, el, Ts, N=1 if len(o["Ts"]) == 1 and o["Ts"][0] == 0 else 3)
            r = (ki.mu, [list(map(np.array, x)) for x in (ki.k_smpl, ki.band_indices, ki.weights)])
        elif q in ("convolve_df", "convolve_ddf"):
            es = np.linspace(e0, e1, 5)
            st = np.linspace(0, nb, 5)**1.0
            given += [es, st]
            r = getattr(density_of_states, q)(e, es, st, 1 / (density_of_states.k_B * max(o["T"], 10)),
                                              extrapolation="flat" if o["band"] else None,
                                              extrapolation_point=(e1, nb) if o["band"] == 2 else None)
        elif q == "naive":
            given += [dos.bands]
            r = (density_of_states.naive_fermi_energy(dos.bands, el), density_of_states.naive_energy(dos.bands, e, o["T"]))
        return r, given

    def outcome(self, dos, o):
        """(kind, value): what the query gives, and whether it changed its arguments"""
        np.random.seed(12345)  # the draws of the periodicity check
        try:
            r, given = self.ask(dos, o)
        except (KeyboardInterrupt, MemoryError, GFails):
            raise
        except Exception as e:
            return "err", type(e).__name__
        if not np.array_equal(np.asarray(given[0], dtype=float), np.array(o["Ts"], dtype=float)):
            raise Violation(f"argument-changed-{o['q']}", f"{o['q']} changed the given temperatures to {given[0]}")
        if len(given) == 3 and not (np.array_equal(given[1], np.linspace(*dos.energy_range(), 5))
                                    and np.array_equal(given[2], np.linspace(0, dos.model_bandcount(), 5))):
            raise Violation(f"argument-changed-{o['q']}", f"{o['q']} changed the given curve")
        return "ok", r

    def run(self, plan, ctx):
        rng = rng_for("p13", plan["seed"])
        self.buffers = {}
        pristine = [self.build(plan["spec"]), self.build(plan["second"])]
        shared = [x for p in pristine for x in (p.model, p.model.m)]
        used = [dosmodels.deep(p, shared) for p in pristine]
        want = {}

        def expect(o):
            key = repr([o[k] for k in sorted(o) if k not in ("fault", "at", "scribble")])
            if key not in want:
                k, v = self.outcome(dosmodels.deep(pristine[o["obj"]], shared), o)
                want[key] = (k, dosmodels.deep(v, ()))
            return want[key]

        kt = rng_for("k", plan["seed"])
        k_test = np.array([[kt.random() for _ in range(3)] for _ in range(3)])
        before = [np.array(p.model.m(k_test)) for p in pristine]
        done = []
        for n, o in enumerate(plan["ops"]):
            dos = used[o["obj"]]
            w = expect(o)
            ctx.ev()
            if o.get("fault") and w[0] == "ok":
                self.faulty(dos, o, ctx, n, shared)
            got = self.outcome(dos, o)
            self.compare(got, w, n, o, done)
            if o["scribble"] and got[0] == "ok":
                ctx.fault("scribble", self.scribble(got[1], dos))
            done.append(o["q"])
            ctx.state(plan["spec"]["smearing"], tuple(done[-3:]))
        # a few other questions, whatever happened
        for _ in range(3):
            o = gen_query(rng)
            ctx.ev()
            self.compare(self.outcome(used[o["obj"]], o), expect(o), "end", o, done)
        for p, u, b, m in zip(pristine, used, before, ("first", "second")):
            for name in ("k_smpl", "bands", "bands_range", "step_sizes", "A", "crystal_volume"):
                if dosmodels.same(getattr(u, name), getattr(p, name), 0):
                    raise Violation(f"attribute-{name}", f"{m} object: {name} changed by the queries {done}")
            if not np.array_equal(p.model.m(k_test), b):
                raise Violation("model-changed", f"{m} object: the model changed by the queries {done}")
        ctx.sample({"queries": done, "smearing": [plan["spec"]["smearing"], plan["second"]["smearing"]]})

    def build(self, spec):
        dos = dosmodels.make_dos(spec)
        dos.model = FlakyPlain(dos.model) if spec.get("plain") else FlakyAll(dos.model)
        return dos

    def scribble(self, r, dos):
        """the caller does what it wants with the arrays it got (not with the documented attributes)"""
        n = 0
        if isinstance(r, (tuple, list)):
            return sum(self.scribble(x, dos) for x in r)
        if isinstance(r, np.ndarray) and r.flags.writeable and r.size:
            r[...] = 7 if r.dtype.kind in "iu" else -77.0
            n = 1
        return n

    def faulty(self, dos, o, ctx, n, shared):
        kind = o["fault"]
        if kind == "model":
            m = dos.model
            m.count = 0
            self.outcome(dosmodels.deep(dos, shared), o)
            total, m.count = m.count, 0
            if not total:
                return
            m.at = int(o["at"] * total)
            try:
                self.outcome(dos, o)
            except GFails:
                ctx.fault("model-error")
            finally:
                m.count, m.at = 0, None
            return
        with Tracer(kind, None, record=False) as t:
            self.outcome(dosmodels.deep(dos, shared), o)
        if not t.n:
            return
        try:
            with Tracer(kind, min(int(o["at"] * t.n), t.n - 1), record=False) as t2:
                self.outcome(dos, o)
        except (KeyboardInterrupt, MemoryError):
            pass
        if t2.fired:
            ctx.fault("interrupt" if kind == "KI" else "allocation")
            ctx.state(o["q"], kind, t2.fired[:2])
            ctx.trace(n, kind, t2.fired)

    def compare(self, got, want, n, o, done):
        if got[0] != want[0]:
            raise Violation(f"outcome-differs-{o['q']}", f"query {n} {o} after {done}: {got} but {want} on a fresh object")
        if got[0] == "err":
            if got[1] != want[1]:
                raise Violation(f"outcome-differs-{o['q']}", f"query {n} {o} after {done}: {got[1]} but {want[1]} on a fresh object")
            return
        d = dosmodels.same(got[1], want[1], self.TOL) if got[1] is not None or want[1] is not None else None
        if d:
            raise Violation(f"answer-differs-{o['q']}", f"query {n} {o} after {done}: {d} compared to a fresh object")

    def shrink(self, plan):
        for c in shrink_list(plan["ops"], 1):
            yield dict(plan, ops=c)
        for i, o in enumerate(plan["ops"]):
            if o.get("fault"):
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, fault=None)] + plan["ops"][i + 1:])
            if o.get("scribble"):
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, scribble=False)] + plan["ops"][i + 1:])
