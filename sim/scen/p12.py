"""P12: Brillouin-zone integrals survive failures and do not depend on query order."""
import numpy as np
from tight_binding_redweasel import bulk_properties

from .. import dosmodels
from ..core import Scenario, Violation, rng_for, shrink_list
from ..interrupt import Tracer, stratify

A_REAL = np.array([[3.6, 0.0, 0.3], [0.1, 4.1, 0.0], [0.0, 0.0, 5.0]])

A_OTHER = np.array([[4.0, 0.2, 0.0], [0.0, 3.3, 0.0], [0.4, 0.0, 2.9]])

QUERIES = ["drude", "transport0", "transport2", "transport_tau", "hall", "hall_tau", "hall_cubic", "hall_old", "heat", "custom",
           "drude_other", "transport_other", "transport_spin", "transport_tau2", "hall_other", "hall_tau2", "real_other", "cubic_other",
           "custom_h", "hand_back_v", "hand_back_k", "hand_back_h", "real_k", "precompute", "precompute_h"]


class GFails(Exception):
    pass


def ask(ki, q, g_fail=None, lattice=None):
    # the array of the caller: the same object with other contents
    A = np.zeros((3, 3)) if lattice is None else lattice
    A[...] = A_OTHER if "_other" in q else A_REAL
    keep = A.copy()
    r = ask_(ki, q, A, g_fail)
    if not np.array_equal(A, keep):
        raise Violation(f"argument-changed-{q}", f"the request {q} changed the lattice given by the caller")
    return r


def ask_(ki, q, A, g_fail):
    def g0(e, v, k):
        if g_fail is not None:
            g_fail()
        return np.cos(k[:, 0]) + v[:, 1] * e

    def g1(e, v, h, k):
        if g_fail is not None:
            g_fail()
        return h[:, 0, 1] * k[:, :1].sum(-1) + v[:, 2]

    if q in ("drude", "drude_other"):
        return ki.drude_factor(A)
    if q == "transport_other":
        return ki.transport_coefficients(A, max_a=1)
    if q == "transport_spin":
        return ki.transport_coefficients(A, spin_factor=1)
    if q == "transport_tau2":
        return ki.transport_coefficients(A, tau=3e-14)
    if q == "hall_other":
        return ki.conductivity_hall_tensor(A)
    if q == "hall_tau2":
        return ki.conductivity_hall_tensor(A, tau=1e-13, spin_factor=1)
    if q == "cubic_other":
        return ki.hall_coefficient_metal_cubic(A)
    if q == "transport0":
        return ki.transport_coefficients(A, max_a=0)
    if q == "transport2":
        return ki.transport_coefficients(A)
    if q == "transport_tau":
        return ki.transport_coefficients(A, tau=lambda k: 1e-14 * (1 + np.cos(k[:, 0])), max_a=1)
    if q == "hall":
        return ki.conductivity_hall_tensor(A)
    if q == "hall_tau":
        return ki.conductivity_hall_tensor(A, tau=2e-14)
    if q == "hall_cubic":
        return ki.hall_coefficient_metal_cubic(A)
    if q == "hall_old":
        return ki.hall_coefficient(A)
    if q == "heat":
        return ki.heat_capacity()
    if q == "custom":
        return ki.integrate_df(g0, moments=1)
    if q == "custom_h":
        return ki.integrate_df(g1, hessians=True)
    # integrands which hand back what they were given
    if q == "hand_back_v":
        return ki.integrate_df(lambda e, v, k: v, moments=2)
    if q == "hand_back_k":
        return ki.integrate_df(lambda e, v, k: k[:, 0])
    if q == "hand_back_h":
        return ki.integrate_df(lambda e, v, h, k: h, hessians=True)
    if q in ("real_k", "real_other"):
        return ki.integrate_df_A(A, lambda e, v, k: k * e, moments=1)
    if q == "precompute":
        return ki.precompute() and ()
    return ki.precompute(hessians=True) and ()


class Flaky:
    """a model whose evaluation fails now and then"""

    def __init__(self, m):
        self.m, self.count, self.at = m, 0, None

    def _tick(self):
        n = self.count
        self.count += 1
        if n == self.at:
            raise GFails("simulated: the model failed")

    def __call__(self, k):
        return self.m(k)

    def bands_grad(self, k):
        self._tick()
        return self.m.bands_grad(k)

    def bands_grad_hess(self, k):
        self._tick()
        return self.m.bands_grad_hess(k)


class SCENARIO(Scenario):
    prop = "P12"
    level = "exploration"
    rule = "distinct (query sequence so far, fault kind, code place hit) tuples"
    assumptions = ["metals; bands are not degenerate; requests agree to 1e-6 of the largest entry, because velocities "
                   "with and without second derivatives are rounded differently"]
    stubs = "interrupts and allocation failures at instruction granularity, failing model, failing integrand"
    quick_runs = 1200
    quick_wall = 60.0
    min_evals = 300
    TOL = 1e-6

    def plan(self, rng, i, tier):
        spec = dosmodels.gen_spec(rng, True)
        spec["N"] = 4
        ops = []
        for _ in range(rng.randint(2, 8 if tier == "quick" else 16)):
            o = {"q": rng.choice(QUERIES)}
            if rng.random() < 0.5:
                o["fault"] = rng.choice(["KI", "KI", "ME", "model", "g"])
                o["at"] = round(rng.random(), 4)
                o["again"] = rng.random() < 0.7
            else:
                o["scribble"] = rng.random() < 0.3
            ops.append(o)
        return {"spec": spec, "T": rng.choice([[0], [0], [300], [100, 300], [0, 300], [1000]]),
                "fill": rng.choice([0.3, 0.5, 0.4]), "band": rng.randrange(3), "seed": rng.randrange(1 << 30), "ops": ops, "twice": rng.random() < 0.25,
                "grid": tier != "quick"}

    def build(self, plan, ctx):
        for n in range(6):
            try:
                return self.build_(plan, n)
            except (ZeroDivisionError, ValueError):
                # documented and known limits of the root search on coarse grids; not what this property is about
                ctx.probe("no-fermi-energy")
        raise Violation("no-integral", "no Fermi energy for six similar metals in a row")

    def build_(self, plan, n):
        dos = dosmodels.make_dos(dict(plan["spec"], seed=plan["spec"]["seed"] + n))
        dos.model = Flaky(dos.model)
        return dos, self.integral(plan, dos)

    def integral(self, plan, dos):
        nb = plan["spec"]["nb"]
        electrons = plan["band"] % nb + plan["fill"]
        T = plan["T"]
        N = {1: 1 if T[0] == 0 else 5}.get(len(T), 5)
        return bulk_properties.KIntegral(dos, electrons, T, N=N)

    def run(self, plan, ctx):
        rng = rng_for("p12", plan["seed"])
        self.lattice = np.zeros((3, 3))
        dos, pristine = self.build(plan, ctx)
        shared = [pristine.model, pristine.model.m]
        model = pristine.model
        want = {}

        def fresh():
            return dosmodels.deep(pristine, shared)

        def expect(q):
            if q not in want:
                want[q] = ask(fresh(), q)
            return want[q]

        ki = fresh()
        if plan.get("twice"):
            # one more integral from the same density of states, after another one was made and used
            pristine = fresh()
            try:
                other = bulk_properties.KIntegral(dos, plan["fill"] + 0.15, [0])
                ask(other, "hall")
            except (ZeroDivisionError, ValueError):
                ctx.probe("no-other-integral")
            ki = self.integral(plan, dos)
            ctx.probe("second-integral")
        done = []
        for n, o in enumerate(plan["ops"]):
            q = o["q"]
            w = expect(q)
            places = [o["at"]] if "fault" in o else []
            if places and o.get("fault") in ("KI", "ME") and plan["grid"]:
                places = [round((places[0] + j / 3) % 1.0, 4) for j in range(3)]
            for p in places:
                self.faulty(ki, q, o["fault"], p, model, ctx, n, plan, done, rng)
                if o.get("again") and q not in ("precompute", "precompute_h"):
                    ctx.ev()
                    self.compare(ask(ki, q, None, self.lattice), w, q, n, o, done)
            if not o.get("again"):
                ctx.ev()
                got = ask(ki, q, None, self.lattice)
                self.compare(got, w, q, n, o, done)
                if o.get("scribble") and isinstance(got, np.ndarray):
                    # what the caller does with the answer is his business
                    got *= -3.0
                    ctx.fault("scribble")
            done.append(q)
            if len(done) > 1:
                ctx.state(tuple(done[-3:]), len(plan["T"]))
        # whatever happened: all other requests still give what a fresh object gives
        for q in rng.sample(QUERIES, 3):
            ctx.ev()
            self.compare(ask(ki, q, None, self.lattice), expect(q), q, "end", None, done)
        ctx.sample({"requests": done, "T": plan["T"], "energies": len(pristine.e_smpl)})

    def faulty(self, ki, q, kind, p, model, ctx, n, plan, done, rng):
        ctx.ev()
        if kind in ("KI", "ME"):
            probe = dosmodels.deep(ki, [ki.model, ki.model.m])
            with Tracer(kind, None) as t:
                ask(probe, q)
            at = min(int(p * t.n), t.n - 1)
            place = None
            try:
                with Tracer(kind, at) as t2:
                    ask(ki, q, None, self.lattice)
            except (KeyboardInterrupt, MemoryError):
                pass
            except Exception as e:
                raise Violation(f"other-exception-{q}", f"request {n} {q}: {kind} at {t2.fired} came out as {type(e).__name__}: {e}")
            if t2.fired:
                place = t2.fired[:2]
                ctx.fault("interrupt" if kind == "KI" else "allocation")
            ctx.state(q, kind, place, tuple(done[-2:]))
            ctx.trace(kind, t2.fired)
        elif kind == "model":
            model.count = 0
            c0 = dosmodels.deep(ki, [ki.model, ki.model.m])
            ask(c0, q)
            total = model.count
            model.count, model.at = 0, (int(p * total) if total else None)
            try:
                ask(ki, q, None, self.lattice)
            except GFails:
                ctx.fault("model-error")
            finally:
                model.count, model.at = 0, None
            ctx.state(q, kind, total, int(p * total), tuple(done[-2:]))
        else:
            calls = [0]
            q = "custom" if rng.random() < 0.5 else "custom_h"
            at = int(p * len(ki.e_smpl))

            def g_fail():
                calls[0] += 1
                if calls[0] - 1 == at:
                    raise GFails("simulated: the integrand failed")
            try:
                ask(ki, q, g_fail, self.lattice)
            except GFails:
                ctx.fault("integrand-error")
            ctx.state(q, kind, at, tuple(done[-2:]))

    def compare(self, got, want, q, n, o, done):
        d = dosmodels.same(got, want, self.TOL)
        if d:
            raise Violation(f"integral-differs-{q}", f"request {n} {o} after {done}: {d} compared to a fresh object")

    def shrink(self, plan):
        for c in shrink_list(plan["ops"], 1):
            yield dict(plan, ops=c)
        for i, o in enumerate(plan["ops"]):
            if "fault" in o:
                yield dict(plan, ops=plan["ops"][:i] + [{"q": o["q"]}] + plan["ops"][i + 1:])
        if plan.get("twice"):
            yield dict(plan, twice=False)
        if plan["T"] != [0]:
            yield dict(plan, T=[0])
        if plan["grid"]:
            yield dict(plan, grid=False)
