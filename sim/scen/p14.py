"""P14: randomised self-checks give the same verdict for every random draw."""
import contextlib
import io

import numpy as np
from tight_binding_redweasel import Symmetry, density_of_states
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation as UR

from .. import dosmodels, models
from ..core import Scenario, Violation, rng_for

DRAWS = ["seeded", "seeded", "seeded", "zeros", "ones", "half", "tiny", "same", "late", "lattice"]
UNIFORM = ("random", "rand", "random_sample", "ranf", "sample", "uniform")


class Draws:
    """numpy's uniform draws come from here: one plan, one sequence, extremes included"""

    def __init__(self, kind, seed, poison=None):
        self.kind, self.r, self.poison = kind, models.rs(seed), poison
        self.old, self.seen = {}, []

    def draw(self, shape):
        u = self.r.random_sample(shape)
        k = self.kind
        if k == "zeros":
            u = np.zeros(shape)
        elif k == "ones":
            u = np.full(shape, 1 - 2.0**-53)
        elif k == "half":
            u = np.full(shape, 0.5)
        elif k == "tiny":
            u = u * 1e-300
        elif k == "same" and len(shape) == 2:
            u = np.tile(u[:1], (shape[0], 1))
        elif k == "late" and len(shape) == 2:
            # all but the last point are where the defect of the tested function can't be seen
            u[:-1] = 0.0 if self.poison is None else self.poison
        elif k == "lattice":
            u = np.floor(u * 4) / 4
        self.seen.append(np.array(u))
        return u

    def __enter__(self):
        for n in UNIFORM:
            self.old[n] = getattr(np.random, n)
        self.state = np.random.get_state()
        np.random.seed(self.r.randint(1 << 31))
        np.random.random = lambda size=None: self._size(size)
        np.random.random_sample = np.random.ranf = np.random.sample = np.random.random
        np.random.rand = lambda *s: self._size(s or None)
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * self._size(size)
        return self

    def _size(self, size):
        if size is None:
            return float(self.draw((1,))[0])
        return self.draw((int(size),) if np.ndim(size) == 0 else tuple(int(x) for x in size))

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)
        np.random.set_state(self.state)
        return False


class Waves:
    """bands a_j cos(2 pi n_j (A k) + phase): periodic exactly if all n_j are integer vectors"""

    def __init__(self, n, amp, phase, shift, A):
        self.n, self.amp, self.phase, self.shift, self.A = n, amp, phase, shift, A

    def __call__(self, k):
        x = np.asarray(k) @ self.A
        arg = 2 * np.pi * np.einsum("...d,bjd->...bj", x, self.n) + self.phase
        return self.shift + np.sum(self.amp * np.cos(arg), axis=-1)


def group(rng):
    return rng.choice([
        lambda: Symmetry.none(), lambda: Symmetry.inv(3), lambda: Symmetry.inv(1), lambda: Symmetry.inv(2),
        lambda: Symmetry.cubic(True), lambda: Symmetry.cubic(False), lambda: Symmetry.cyclic(3, True),
        lambda: Symmetry.cyclic(4, False), lambda: Symmetry.cyclic(2, True), lambda: Symmetry.mirror3(False),
        lambda: Symmetry.mirror3(True), lambda: Symmetry.perm3(False), lambda: Symmetry.even_perm3(True),
        lambda: Symmetry.mirror_x(False, 3), lambda: Symmetry.mirror_x(True, 3), lambda: Symmetry.o1(True),
        lambda: Symmetry.dihedral(3, False)])


GROUPS = 17


def get_group(i):
    class R:
        def choice(self, l):
            return l[i]
    return group(R())()


REPS = [("one_dim", lambda: UR.one_dim(True, False)), ("one_dim2", lambda: UR.one_dim(True, True, False)),
        ("d3", lambda: UR.d3(False, False)), ("o3", lambda: UR.o3()), ("so3", lambda: UR.so3()),
        ("sum", lambda: UR.one_dim(True, False) + UR.d3(False) + UR.o3())]


class SCENARIO(Scenario):
    prop = "P14"
    level = "exploration"
    rule = "distinct (check, kind of function, kind of draw, group or lattice) tuples"
    assumptions = ["'clearly not periodic': the band difference between equivalent cells exceeds 0.01 at the drawn points or in "
                   "every random batch; draws come from numpy's legacy global generator"]
    stubs = "random generator (seeded and extreme draws)"
    quick_runs = 600
    quick_wall = 60.0
    min_evals = 300

    def plan(self, rng, i, tier):
        what = rng.choice(["dos", "dos", "dos", "sym", "sym", "sym", "rep", "data"])
        p = {"what": what, "draw": rng.choice(DRAWS), "seed": rng.randrange(1 << 30), "ok": rng.random() < 0.5,
             "more": [[rng.choice(DRAWS), rng.randrange(1 << 30)] for _ in range(3 if tier == "quick" else 8)]}
        if what == "dos":
            p.update(lattice=rng.randrange(len(dosmodels.LATTICES)), axis=rng.randrange(3), frac=rng.choice([0.5, 1 / 3, 0.25, 0.1, 0.9]),
                     nb=rng.randint(1, 3), tol=rng.choice([None, None, 1e-6, 1e-4]), direct=rng.random() < 0.7,
                     wrongA=rng.random() < 0.3, twin=rng.random() < 0.5, weak=rng.random() < 0.4,
                     high=rng.random() < 0.3, opposite=rng.random() < 0.3)
        elif what == "sym":
            p.update(group=rng.randrange(GROUPS), shape=rng.choice(["scalar", "vector", "matrix"]), verbose=rng.random() < 0.5,
                     sub=rng.choice(["none", "proper", "half"]),
                     weak=rng.choice([1.0, 1.0, 1e-4]), offset=rng.choice([0.0, 0.0, 50.0]), only=rng.choice([None, None, "real", "imag"]),
                     local=rng.random() < 0.3)
        elif what == "rep":
            p.update(rep=rng.randrange(len(REPS)), weak=rng.choice([1.0, 1.0, 1e-4]), coupling=rng.random() < 0.5)
        else:
            p.update(spec=dosmodels.gen_spec(rng))
        return p

    def run(self, plan, ctx):
        draws = [(plan["draw"], plan["seed"])] + [tuple(x) for x in plan["more"]]
        for kind, seed in draws:
            ctx.ev()
            ctx.fault("draw-" + kind)
            getattr(self, "do_" + plan["what"])(plan, kind, seed, ctx)
        ctx.sample({k: v for k, v in plan.items() if k in ("what", "draw", "ok", "lattice", "group", "rep")})

    # the periodicity check of the density of states
    def do_dos(self, plan, kind, seed, ctx):
        r = models.rs(plan["seed"])
        nb, axis = plan["nb"], plan["axis"]
        A = np.array(dosmodels.LATTICES[plan["lattice"]] or np.eye(3), dtype=float)
        n = r.randint(-2, 3, (nb, 4, 3)).astype(float)
        amp = 0.1 + r.random_sample((nb, 4))
        phase = r.random_sample((nb, 4)) * 6.28
        poison = None
        weak = 1.0
        if not plan["ok"]:
            b = r.randint(nb)
            if plan.get("weak"):
                weak = {None: 1e-5, 1e-6: 1e-2, 1e-4: 1.0}[plan["tol"]]
                amp[b, 0] *= weak
            n[b, 0, axis] += plan["frac"]
            if kind == "late":
                # where the defect cancels (only for the unit lattice these are the points the model sees)
                v = n[b, 0]
                s = v[axis] % 1
                poison = np.zeros(3)
                poison[axis] = ((-np.pi * s - phase[b, 0]) % np.pi) / (2 * np.pi * v[axis])
                poison = np.mod(poison, 1e9)
            if plan["twin"]:
                # a second band with the sine: the difference is the same everywhere, no draw can miss it
                n = np.concatenate([n, n[b:b + 1]])
                amp = np.concatenate([amp, amp[b:b + 1]])
                phase = np.concatenate([phase, phase[b:b + 1] - np.pi / 2])
                keep = np.zeros((len(n), 4))
                keep[[b, -1], 0] = 1
                keep[:, 1:] = 0
                amp = amp * keep
            elif plan.get("opposite"):
                # a second band with the opposite defect: the mean of the bands is periodic
                n = np.concatenate([n, n[b:b + 1]])
                amp = np.concatenate([amp, -amp[b:b + 1]])
                phase = np.concatenate([phase, phase[b:b + 1]])
        shift = np.arange(len(n)) * 20.0 + (1e3 if plan.get("high") else 0)
        m = Waves(n, amp, phase, shift, A)
        given = A
        wrong = False
        if plan["wrongA"] and plan["ok"]:
            # right model, wrong lattice: stretched along one axis
            given = A @ np.diag([1.0 + (0.3 if i == axis else 0) for i in range(3)])
            wrong = True
        bad = not plan["ok"] or wrong

        def error(k):
            """sum over the directions"""
            iB = np.linalg.inv(given)
            return max(np.linalg.norm(m(k @ iB) - m((k + np.eye(3)[i]) @ iB)) for i in range(3))
        if bad:
            rr = models.rs(plan["seed"] + 1)
            if min(error(rr.random_sample((20, 3))) for _ in range(10)) < 0.01 * weak:
                return
        with Draws(kind, seed, poison) as d:
            failed = None
            try:
                if plan["direct"]:
                    dos = dosmodels_check(m, given)
                    dos.check() if plan["tol"] is None else dos.check(tolerance=plan["tol"])
                else:
                    density_of_states.DensityOfStates(m, N=2, A=given, check=True if plan["tol"] is None else plan["tol"])
            except AssertionError as e:
                failed = e
        ctx.state("dos", kind, plan["lattice"], plan["axis"], bad, wrong, plan["tol"], plan["direct"], len(n))
        if not bad and failed is not None:
            raise Violation("periodic-rejected", f"{kind} draw: a model periodic on the lattice was rejected: {failed}")
        if bad and failed is None:
            if kind != "seeded" and not (plan["twin"] and not plan["ok"]):
                # extreme draws may only miss what can't be seen at the drawn points, however they are mapped
                pts = [u.reshape(-1, 3) for u in d.seen if u.size % 3 == 0]
                iB = np.linalg.inv(given)
                if not pts or min(min(error(u), error(u @ iB), error(u @ given)) for u in pts) < 0.01 * weak:
                    ctx.probe("not-visible")
                    return
            raise Violation("nonperiodic-accepted",
                            f"{kind} draw: a model not periodic along axis {axis} (period {plan['frac']}) was accepted")

    # the symmetry check of a group
    def do_sym(self, plan, kind, seed, ctx):
        sym = get_group(plan["group"])
        dim = sym.dim()
        ops = list(np.asarray(sym.S))
        if sym.inversion:
            ops = ops + [-s for s in ops]
        if plan["ok"]:
            used = ops
        elif plan["sub"] == "none":
            used = ops[:1]
        elif plan["sub"] == "proper":
            used = [s for s in ops if np.linalg.det(s) > 0]
        else:
            used = ops[:max(1, len(ops) // 2)]
        r = models.rs(plan["seed"])
        size = {"scalar": 1, "vector": 3, "matrix": 4}[plan["shape"]]
        w = r.standard_normal((size, 3, dim)) * 1.5
        ph = r.random_sample((size, 3)) * 6

        stack = np.einsum("jad,sde->sjae", w, np.array(used))
        whole = np.einsum("jad,sde->sjae", w, np.array(ops))
        weak, only = plan.get("weak", 1.0), plan.get("only")

        def foo(x):
            v = np.mean(np.sum(np.cos(stack @ x + ph), axis=-1), axis=0)
            if weak != 1 or only:
                # has the symmetry but for a small part, or in one of its real and imaginary part
                g = np.mean(np.sum(np.sin(whole @ x + ph), axis=-1), axis=0)
                v = weak * v + (g if weak != 1 else 0)
                v = v + 1j * g if only == "real" else g + 1j * v if only == "imag" else v
            if plan.get("local") and np.linalg.norm(x) < 0.7312345:
                v = v * 0  # zero around the origin, which looks the same in all directions
            v = v + plan.get("offset", 0.0)
            return v[0] if size == 1 else v.reshape(2, 2) if size == 4 else v

        def spread(x):
            return np.linalg.norm(np.std([foo(s @ x) for s in ops], axis=0))
        rr = models.rs(plan["seed"] + 1)
        sp = np.array([spread(x) for x in rr.random_sample((16, dim))])
        symmetric = plan["ok"] or len(used) == len(ops)
        if symmetric and not np.all(sp < 1e-9):
            raise Violation("broken-reference", "the group is not closed")
        if not symmetric and np.sort(sp)[-5] < 1e-2 * weak:  # a third of the points shows it
            return
        S0 = np.array(sym.S)
        out = io.StringIO()
        with Draws(kind, seed) as d, contextlib.redirect_stdout(out):
            v = sym.check_symmetry(foo, verbose=plan["verbose"])
        ctx.state("sym", kind, plan["group"], plan["shape"], symmetric, plan["sub"], weak, only)
        if not np.array_equal(S0, sym.S):
            raise Violation("symmetry-changed", "check_symmetry changed the symmetry operations")
        if out.getvalue() and not plan["verbose"]:
            raise Violation("symmetry-prints", "verbose=False prints")
        if symmetric and not v:
            raise Violation("symmetric-rejected", f"{kind} draw: a symmetric function was rejected by group {plan['group']}")
        if not symmetric and v:
            if kind != "seeded":
                pts = [x for u in d.seen for x in u.reshape(-1, dim)]
                if not pts or max(spread(x) for x in pts) < 1e-3 * weak:
                    ctx.probe("not-visible")
                    return
            raise Violation("broken-symmetry-accepted",
                            f"{kind} draw: a function which only has {len(used)} of {len(ops)} operations of group {plan['group']} was accepted")

    # the symmetry check of a representation
    def do_rep(self, plan, kind, seed, ctx):
        name, make = REPS[plan["rep"]]
        rep = make()
        S, U = np.asarray(rep.sym.S), np.asarray(rep.U)
        r = models.rs(plan["seed"])
        N, dim = rep.dim(), rep.sym.dim()
        M = r.standard_normal((4, N, N)) + 1j * r.standard_normal((4, N, N))
        M = M + np.conj(np.swapaxes(M, -1, -2))
        w = r.standard_normal((4, dim))
        weak = plan.get("weak", 1.0)
        if not plan["ok"] and plan.get("coupling") and name == "sum":
            # only the coupling between the parts of the representation breaks the symmetry
            part = np.repeat([0, 1, 2], [1, N - 4, 3])
            B = M * (part[:, None] != part[None, :])
        else:
            B = M

        def broken(k):
            return np.einsum("j,jab->ab", np.cos(w @ k + 0.6), B)

        def raw(k):
            return np.einsum("j,jab->ab", np.cos(w @ k + 0.3), M)

        def one(k):
            if not plan["ok"] and weak == 1 and B is M:
                return raw(k)
            return (0 if plan["ok"] else weak * broken(k)) + np.mean([np.conj(u.T) @ raw(s @ k) @ u for s, u in zip(S, U)], axis=0)

        def ham(ks):
            return np.array([one(np.asarray(k, dtype=float)) for k in ks])
        symmetric = plan["ok"] or len(U) == 1
        with Draws(kind, seed) as d, contextlib.redirect_stdout(io.StringIO()):
            v = rep.check_symmetry(ham)
        ctx.state("rep", kind, name, symmetric)
        if symmetric and not v:
            raise Violation("rep-symmetric-rejected", f"{kind} draw: a symmetric operator was rejected by {name}")
        if not symmetric and v:
            if kind != "seeded":
                pts = [x for u in d.seen for x in u.reshape(-1, dim)]
                if not pts or max(np.linalg.norm(np.std([np.conj(u.T) @ one(s @ x) @ u for s, u in zip(S, U)], axis=0)) for x in pts) < 1e-3 * weak:
                    ctx.probe("not-visible")
                    return
            raise Violation("rep-broken-accepted", f"{kind} draw: an operator without the symmetry was accepted by {name}")

    # the draw never changes the data
    def do_data(self, plan, kind, seed, ctx):
        a = dosmodels.make_dos(plan["spec"], check=False)
        with Draws(kind, seed):
            b = dosmodels.make_dos(plan["spec"], check=1e-6)
        ctx.state("data", kind, plan["spec"]["smearing"], plan["spec"]["cls"])
        e0, e1 = a.energy_range()
        for e in (e0 + 0.3 * (e1 - e0), e0 + 0.71 * (e1 - e0)):
            if dosmodels.same(b.states_density(e), a.states_density(e), 0):
                raise Violation("draw-changes-data", f"{kind} draw: the density depends on the random draw of the check")
        for n in ("bands", "k_smpl", "bands_range"):
            if dosmodels.same(getattr(b, n), getattr(a, n), 0):
                raise Violation("draw-changes-data", f"{kind} draw: {n} depends on the random draw of the check")

    def shrink(self, plan):
        if plan["more"]:
            yield dict(plan, more=[])
            for x in plan["more"]:
                yield dict(plan, draw=x[0], seed=x[1], more=[])


def dosmodels_check(m, A):
    return density_of_states.DensityOfStates(m, N=2, A=A, check=False)
