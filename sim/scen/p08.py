"""P08: any history of model edits matches a simple Fourier-series model."""
import os

import numpy as np
import scipy.linalg
from tight_binding_redweasel import AsymTightBindingModel, BandStructureModel, HermitianFourierSeries

from .. import fs as simfs
from .. import models
from ..core import Scenario, Violation, rng_for, shrink_list
from ..fs import Fault, SimFS, SimKill
from ..interrupt import Tracer

MAX_POOL = 6
MAX_NEI = 60
MAX_NB = 10


def key(v):
    return tuple(float(x) + 0.0 for x in np.round(v, 7))


class Ref:
    """lattice vector -> matrix; the model is H(0) + sum over the others of (H e^{2 pi i k r} + hermitian conjugate)"""

    def __init__(self, cls, H, S=None, herm=False, link=None, sym="none", form=None, proj=None):
        self.cls, self.H, self.S, self.link, self.sym, self.form = cls, dict(H), (None if S is None else dict(S)), link, sym, form
        self.herm = herm
        self.proj = proj        # signs of the symmetrizer of the model

    def clone(self, **kw):
        d = dict(cls=self.cls, H={k: v.copy() for k, v in self.H.items()},
                 S=None if self.S is None else {k: v.copy() for k, v in self.S.items()},
                 herm=self.herm, link=self.link, sym=self.sym, form=self.form, proj=self.proj)
        d.update(kw)
        return Ref(**d)

    @property
    def nb(self):
        return len(next(iter(self.H.values())))

    @property
    def dim(self):
        return len(next(iter(self.H)))

    @staticmethod
    def series(d, k):
        out = 0
        for v, h in d.items():
            ph = np.exp(2j * np.pi * (k @ np.array(v)))[:, None, None]
            if any(v):
                out = out + ph * h[None] + np.conj(ph) * np.conj(h.T)[None]
            else:
                out = out + h[None] * np.ones((len(k), 1, 1))
        return out

    def f(self, k):
        return self.series(self.H, k)

    def bands(self, k):
        h = self.f(k)
        s = None if self.S is None else self.series(self.S, k)
        return np.array([scipy.linalg.eigh(h[i], None if s is None else s[i], eigvals_only=True) for i in range(len(k))])

    def map(self, fn):
        self.H = {v: fn(h) for v, h in self.H.items()}

    def scale(self):
        return max(FLOOR, max(np.max(np.abs(h), initial=0.0) for h in self.H.values()))


def content(m):
    H = models.content(m, overlap=False)
    H = {key(v) if isinstance(v, tuple) else v: h for v, h in H.items()}
    S = None
    if isinstance(m, AsymTightBindingModel):
        S = {key(v): np.array(h) for v, h in zip(m.S.neighbors, m.S.H_r)}
    return H, S


def zero_first(m):
    nei = m.H.neighbors if isinstance(m, AsymTightBindingModel) else m.neighbors
    return len(nei) > 0 and np.max(np.abs(nei[0]), initial=0.0) == 0


def supercell_ref(ref, M):
    """bands reference of the supercell: the definition, with an own numbering of the sites"""
    dim = ref.dim
    Mi = np.linalg.inv(M)
    r = int(np.sum(np.abs(M)))
    g = np.stack(np.meshgrid(*[np.arange(-r, r + 1)] * dim, indexing="ij"), -1).reshape(-1, dim)
    frac = g @ Mi.T
    sites = g[np.all((frac > -1e-7) & (frac < 1 - 1e-7), axis=1)]
    nb, n = ref.nb, len(sites)
    out = {}
    for v in ref.H:
        nv = np.array(v) @ M.T
        h = np.zeros((n * nb, n * nb), dtype=complex)
        for i, pi in enumerate(sites):
            for j, pj in enumerate(sites):
                w = key(nv + pj - pi)
                mw = key(-np.array(w))
                if w in ref.H:
                    h[i * nb:(i + 1) * nb, j * nb:(j + 1) * nb] = ref.H[w]
                elif mw in ref.H:
                    h[i * nb:(i + 1) * nb, j * nb:(j + 1) * nb] = np.conj(ref.H[mw].T)
        out[key(nv)] = h
    return out


SUPER = {1: [[[2]], [[3]], [[1]]],
         2: [[[1, 0], [0, 1]], [[2, 0], [0, 1]], [[1, 1], [-1, 1]], [[1, 0], [1, 2]], [[2, 0], [0, 2]], [[1, -1], [0, 1]]],
         3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 1], [0, 0, 2]]]}

FLOOR = 1e-5      # smallest energy scale: values below 1e-14 are zeroed at some places

OPS = ["new", "copy", "mul", "shift", "sum", "supercell", "transform", "add", "limit", "count", "cleanup", "permute", "normalize",
       "set", "roundtrip", "randomize", "poke", "pokenei", "save", "save", "load", "load", "crash", "drop", "inplace"]
MUTATE = {"transform", "add", "limit", "count", "cleanup", "permute", "normalize", "set", "roundtrip"}


class SCENARIO(Scenario):
    prop = "P08"
    level = "exploration"
    rule = "distinct (operation, class, storage form, size class, fault, pool size) tuples along the histories"
    assumptions = ["neighbour sets never hold a vector and its mirror image at once",
                   "constant matrices are hermitian, cosine/sine models have hermitian coefficient matrices",
                   "supercells and shifts are compared for models without overlap matrix",
                   "copies of BandStructureModel share their neighbour list, as documented"]
    stubs = "file-operation seam with process kill, power loss, short writes; interrupts at instruction granularity"
    quick_runs = 6000
    quick_wall = 45.0
    min_evals = 300

    def plan(self, rng, i, tier):
        ops = []
        dim = rng.choice([1, 2, 2, 3])
        n = rng.randint(4, 16 if tier == "quick" else 40)
        for j in range(n):
            o = {"op": "new" if j == 0 else rng.choice(OPS), "i": rng.randrange(100), "j": rng.randrange(100),
                 "seed": rng.randrange(1 << 30)}
            if o["op"] in MUTATE and rng.random() < 0.25:
                o["ki"] = round(rng.random(), 4)
            if o["op"] == "crash":
                o["at"] = round(rng.random(), 4)
                o["kind"] = rng.choice(["kill", "kill", "power"])
            if o["op"] == "save" and rng.random() < 0.3:
                o["short"] = True
            ops.append(o)
        return {"dim": dim, "ops": ops}

    # ------------------------------------------------------------ pool
    def run(self, plan, ctx):
        simfs.quiet_unraisable()
        root = simfs.scratch("p08")
        self.links = 0
        try:
            pool, files = [], {}
            k = models.kpoints(plan["dim"], 4)
            self.buffer = k.copy()
            for n, o in enumerate(plan["ops"]):
                self.n = n
                try:
                    touched = self.step(plan, o, pool, files, root, ctx)
                except Violation:
                    raise
                if touched is None:
                    continue
                self.compare(pool, touched, k, o, ctx)
            for i in range(len(pool)):
                self.evaluate(pool[i], k, {"op": "end"}, ctx)
        finally:
            simfs.drop(root)

    def compare(self, pool, touched, k, o, ctx):
        for i, (m, ref) in enumerate(pool):
            ctx.ev()
            H, S = content(m)
            own = i in touched
            who = "" if own else "-of-another-model"
            if not zero_first(m):
                raise Violation(f"zero-neighbour-lost-{o['op']}{who}", f"step {self.n} {o}: the first neighbour of model {i} is not zero")
            d = models.content_diff(H, ref.H, 1e-9 * ref.scale())
            if d:
                raise Violation(f"content-{o['op']}-{ref.cls}{who}", f"step {self.n} {o}: model {i} ({ref.form}): {d}")
            if S is not None:
                want = ref.S if ref.S is not None else {key([0] * ref.dim): np.eye(ref.nb)}
                d = models.content_diff(S, want, 1e-9)
                if d:
                    raise Violation(f"overlap-{o['op']}-{ref.cls}{who}", f"step {self.n} {o}: overlap of model {i}: {d}")
            if own:
                self.evaluate((m, ref), k, o, ctx)
        ctx.state(o["op"], o.get("kind"), "ki" in o, len(pool), sorted((pool[t][1].cls, str(pool[t][1].form), pool[t][1].nb,
                  len(pool[t][1].H)) for t in touched if t < len(pool))[:2])

    def evaluate(self, pair, k, o, ctx):
        m, ref = pair
        f = m.H.f(k) if ref.cls == "asym" else m.f(k)
        want = ref.f(k)
        tol = 1e-8 * ref.scale() * len(ref.H)
        if f.shape != want.shape or not np.max(np.abs(f - want)) <= tol:
            raise Violation(f"hamiltonian-{o['op']}-{ref.cls}", f"step {self.n} {o}: the Hamiltonian of a {ref.cls} model "
                            f"({ref.form}) differs from its Fourier series by "
                            f"{np.max(np.abs(f - want)) if f.shape == want.shape else (f.shape, want.shape)}")
        series = m.H if ref.cls == "asym" else m
        for kk, w in ((k.tolist(), want), (k[1], want[1]), (k[::-1], want[::-1]), (k.reshape(2, -1, k.shape[-1]),
                                                                            want.reshape(2, -1, *want.shape[1:]))):
            g = series.f(kk)
            if np.shape(g) != w.shape or not np.max(np.abs(g - w)) <= tol:
                raise Violation(f"hamiltonian-shape-{o['op']}-{ref.cls}", f"step {self.n} {o}: the Hamiltonian of the same points given "
                                f"as {np.shape(kk)} differs")
        d = models.bands_diff(m, ref.bands(k), k, 1e-7 * len(ref.H), floor=ref.scale())
        if d:
            raise Violation(f"bands-{o['op']}-{ref.cls}", f"step {self.n} {o}: {d}")
        # the caller uses one array for other points
        self.buffer[:] = np.random.RandomState(o.get("seed", self.n) % 100003).uniform(-1, 1, self.buffer.shape)
        want = ref.f(self.buffer)
        for n in range(2):
            g = series.f(self.buffer)
            if not np.max(np.abs(g - want)) <= tol:
                raise Violation(f"hamiltonian-other-points-{ref.cls}", f"step {self.n} {o}: the Hamiltonian of a {ref.cls} model "
                                f"({ref.form}) at other points in the same array differs by {np.max(np.abs(g - want))}")
            if n == 0:
                self.buffer[:] = self.buffer[::-1].copy()
                want = want[::-1]
        d = models.bands_diff(m, ref.bands(self.buffer), self.buffer, 1e-7 * len(ref.H), floor=ref.scale())
        if d:
            raise Violation(f"bands-other-points-{ref.cls}", f"step {self.n} {o}: {d}")

    # ------------------------------------------------------------ steps
    def spec(self, plan, r):
        dim = plan["dim"]
        s = {"cls": ["asym", "asym", "band"][r.randint(3)], "seed": int(r.randint(1 << 30)), "dim": dim, "n": int(r.randint(1, 7)),
             "nb": int(r.randint(1, 4))}
        if r.uniform() < 0.03:
            s["n"] = int(r.randint(17, 40))
        if s["cls"] == "asym":
            s["overlap"] = r.uniform() < 0.25
            s["real"] = r.uniform() < 0.1 and not s["overlap"]
            if s["overlap"] and r.uniform() < 0.5:
                s["sn"] = int([1, 1, s["n"] + 1, 2][r.randint(4)])
            if s["overlap"] and r.uniform() < 0.2:
                s["soft"] = [0.3, 0.05][r.randint(2)]
        else:
            # in even dimensions inversion is a rotation, whose copies are summed
            s["sym"] = ["none", "inversion"][r.randint(2)] if dim != 2 else "none"
            s["exp"] = s["sym"] == "none" and r.uniform() < 0.6
            s["cos_reduced"] = bool(r.uniform() < 0.4)
            s["proj"] = r.uniform() < 0.35
        return s

    def fresh(self, spec):
        m = models.make({a: b for a, b in spec.items() if a != "proj"})
        H, S = content(m)
        if spec["cls"] == "asym":
            return m, Ref("asym", H, S if spec.get("overlap") else None, form="overlap" if spec.get("overlap") else "plain")
        self.links += 1
        ref = Ref("band", H, None, herm=spec["sym"] == "inversion", link=self.links, sym=spec["sym"],
                  form=(spec["sym"], spec["exp"], spec["cos_reduced"]))
        if spec.get("proj") and ref.nb > 1:
            # a model with a symmetrizer, as the symmetrised class has: here the parity of the orbitals
            ref.proj = np.array([1, -1, 1, 1][:ref.nb])
            D = np.outer(ref.proj, ref.proj)
            m.symmetrizer = lambda p: (p + p * D[None]) / 2
            m.params = m.symmetrizer(m.params)
            ref.H = content(m)[0]
        return m, ref

    def step(self, plan, o, pool, files, root, ctx):
        r = models.rs(o["seed"])
        op = o["op"]
        if op == "new":
            if len(pool) >= MAX_POOL:
                return None
            pool.append(self.fresh(self.spec(plan, r)))
            return [len(pool) - 1]
        if op == "load":
            return self.load(o, pool, files, root, r, ctx)
        if not pool:
            return None
        i = o["i"] % len(pool)
        m, ref = pool[i]
        if op == "drop":
            if len(pool) < 2:
                return None
            del pool[i]
            return []
        if op in ("copy", "mul", "shift", "sum", "supercell"):
            return self.combine(o, pool, i, r)
        if op == "inplace":
            # augmented assignment binds a new model, the old one stays with whoever holds it
            x = [float(np.round(r.uniform(0.5, 2), 3)), 1.0][r.randint(2)]
            old = m
            m *= x
            new = ref.clone(link=ref.link)
            new.map(lambda h: h * x)
            pool[i] = (m, new)
            if len(pool) < MAX_POOL:
                pool.append((old, ref))
                return [i, len(pool) - 1]
            return [i]
        if op == "poke":
            vs = list(ref.H)
            if ref.cls == "asym":
                t = r.randint(len(vs))
                x = r.standard_normal((ref.nb, ref.nb)) * (1 if m.H.H_r.dtype.kind != "c" else 1 + 0.3j)
                x = (x + np.conj(x.T)) / 2
                v = key(m.H.neighbors[t])
                m.H.H_r[t] = x
                ref.H[v] = np.array(x)
            else:
                x = np.round(r.uniform(0.1, 1), 3)
                m.params[0] += np.eye(ref.nb) * x
                z = key([0] * ref.dim)
                ref.H[z] = ref.H[z] + np.eye(ref.nb) * x
            return [i]
        if op == "pokenei":
            if ref.cls != "asym":
                return None
            m.H.neighbors *= 2.0
            ref.H = {key(2 * np.array(v)): h for v, h in ref.H.items()}
            return [i]
        if op == "save":
            return self.save(o, pool, i, files, root, r, ctx)
        if op == "crash":
            return self.crash(o, pool, i, files, root, r, ctx)
        if op == "randomize":
            if ref.cls == "asym" and m.H.H_r.dtype.kind != "c" or ref.proj is not None:
                return None
            sigma = float(r.uniform(0.01, 0.5))
            keep = bool(r.randint(2))
            before = content(m)[0]
            state = np.random.get_state()
            np.random.seed(o["seed"] % (1 << 32))
            m.randomize(sigma, keep_zeros=keep)
            np.random.set_state(state)
            H, _ = content(m)
            if set(H) != set(ref.H):
                raise Violation("randomize-neighbours", f"randomize changed the neighbour set: {len(H)} vs {len(ref.H)}")
            if ref.cls == "asym":
                for v, h in before.items():
                    z = np.abs(h) < 1e-9
                    if keep and np.any(H[v][z] != h[z]):
                        raise Violation("randomize-zeros", f"randomize(keep_zeros=True) changed a zero at {v}")
                    if np.max(np.abs(H[v] - h)) > 12 * sigma:
                        raise Violation("randomize-size", f"randomize({sigma}) changed an entry by {np.max(np.abs(H[v] - h))}")
            # the constant matrix has to be made hermitian by normalize, as documented
            self.normalize_check(m, ref, i, pool, H, plan)
            return [i]
        return self.mutate(plan, o, pool, i, r, ctx)

    def normalize_check(self, m, ref, i, pool, H, plan):
        """normalize: a unitary change of basis of the hermitian part; then the reference takes over the new basis"""
        k = models.kpoints(plan["dim"], 4)
        z = key([0] * ref.dim)
        tmp = ref.clone(H=H)
        tmp.H[z] = (H[z] + np.conj(H[z].T)) / 2
        if ref.cls == "band" and not (ref.form[1]):
            tmp.H = None
        want = tmp.bands(k) if tmp.H is not None else None
        m.normalize()
        H2, S2 = content(m)
        if want is not None:
            d = models.bands_diff(m, want, k, 1e-7 * len(H), floor=ref.scale())
            if d:
                raise Violation(f"bands-normalize-{ref.cls}", f"step {self.n}: normalising changed the bands: {d}")
        ref.H = H2
        if ref.S is not None:
            ref.S = S2

    def combine(self, o, pool, i, r):
        if len(pool) >= MAX_POOL:
            del pool[0 if i else -1]
            i = i - 1 if i else 0
        m, ref = pool[i]
        op = o["op"]
        if op == "copy":
            new, nref = m.copy(), ref.clone()
        elif op == "mul":
            x = [float(np.round(r.uniform(-2, 2), 3)), 1.0, 1, -1, 0.0, 2, 1e-4, 1e3][r.randint(8)]
            new, nref = m * x, ref.clone()
            nref.map(lambda h: h * x)
        elif op == "shift":
            S0 = np.eye(ref.nb)
            if ref.S is not None:
                # with an overlap that depends on k this is an approximation
                S0 = ref.S[key([0] * ref.dim)]
                if any(any(v) and np.any(h) for v, h in ref.S.items()):
                    return None
            x = [float(np.round(r.uniform(-3, 3), 3)), int(r.randint(-3, 4)), 0, 0.0][r.randint(4)]
            new, nref = m + x, ref.clone()
            z = key([0] * ref.dim)
            nref.H[z] = nref.H[z] + x * S0
        elif op == "sum":
            cands = [j for j in range(len(pool)) if pool[j][1].cls == ref.cls]
            j = cands[o["j"] % len(cands)]
            other, oref = pool[j]
            same = set(oref.H) == set(ref.H)
            if ref.cls == "asym":
                same = same and np.array_equal(m.H.neighbors, other.H.neighbors) and np.array_equal(m.S.neighbors, other.S.neighbors)
            else:
                if oref.form != ref.form or ref.proj is not None or oref.proj is not None:
                    return None     # refusing this is the documented behaviour
                same = same and np.array_equal(m.neighbors, other.neighbors)
            if ref.nb + oref.nb > MAX_NB:
                return None
            if not same:
                if len(ref.H) != len(oref.H) and ref.cls == "band":
                    return None
                try:
                    new = m + other
                except (AssertionError, NotImplementedError, ValueError):
                    return [i, j]
                raise Violation(f"sum-of-different-neighbours-{ref.cls}", f"step {self.n} {o}: models with different neighbours were added")
            new = m + other

            def ds(a, b):
                out = np.zeros((len(a) + len(b),) * 2, dtype=complex)
                out[:len(a), :len(a)], out[len(a):, len(a):] = a, b
                return out
            nref = ref.clone()
            nref.H = {v: ds(h, oref.H[v]) for v, h in ref.H.items()}
            if ref.S is not None or oref.S is not None:
                z = {key([0] * ref.dim): None}
                sa = ref.S or {v: np.eye(ref.nb) for v in z}
                sb = oref.S or {v: np.eye(oref.nb) for v in z}
                nref.S = {v: ds(sa[v], sb[v]) for v in sa}
                nref.form = "overlap"
        else:
            if ref.S is not None or ref.sym != "none" or any(abs(x - round(x)) > 1e-6 for v in ref.H for x in v):
                return None
            M = np.array(SUPER[ref.dim][r.randint(len(SUPER[ref.dim]))])
            det = round(abs(np.linalg.det(M)))
            if det * ref.nb > MAX_NB or np.max(np.abs(list(ref.H))) > 40:
                return None
            H = supercell_ref(ref, M)
            A = np.eye(ref.dim)
            if r.randint(2):
                # positions in another basis
                A = [2.0 * A, A * 0.5 + np.triu(r.standard_normal(A.shape), 1) * 0.7, A + np.diag(np.arange(1.0, ref.dim + 1)),
                     A + 0.3 * r.standard_normal(A.shape)][r.randint(4)]
                A = np.round(A, 2)      # the reference has seven digits
                if abs(np.linalg.det(A)) < 0.2 or np.linalg.norm(np.linalg.inv(A)) > 8:
                    A = 2.0 * np.eye(ref.dim)
                if ref.cls == "asym":
                    m = m.copy()
                else:
                    # a copy would share the neighbour list
                    m2 = BandStructureModel.init_tight_binding(m.sym, m.neighbors.copy(), ref.nb, cos_reduced=m.cos_reduced, exp=m.exp)
                    m2.params = m.params.copy()
                    m = m2
                m.transform(A)
                H = {key(A @ np.array(v)): h for v, h in H.items()}
            if ref.cls == "asym":
                new = m.supercell(A, A @ M)
                nref = Ref("asym", H, form="supercell")
            else:
                cosr, exp = bool(r.randint(2)), bool(r.randint(2))
                new = m.supercell(A, A @ M, cos_reduced=cosr, exp=exp)
                self.links += 1
                nref = Ref("band", H, link=self.links, form=("none", exp, cosr))
            k = models.kpoints(ref.dim, 4)
            d = models.bands_diff(new, nref.bands(k), k, 1e-8 * len(H), floor=ref.scale())
            if d:
                raise Violation(f"supercell-{ref.cls}", f"step {self.n} {o}: supercell {M.tolist()}: {d}")
            H2, _ = content(new)
            if set(H2) != set(H):
                raise Violation(f"supercell-neighbours-{ref.cls}", f"step {self.n} {o}: neighbours of the supercell {M.tolist()}")
            nref.H = H2
        pool.append((new, nref))
        return [i, len(pool) - 1]

    def mutate(self, plan, o, pool, i, r, ctx):
        m, ref = pool[i]
        op = o["op"]
        after = None
        touched = [i]
        if op in ("add", "limit", "count", "cleanup") and ref.cls != "asym":
            return None
        z = key([0] * ref.dim)
        refs = [pool[t][1] for t in range(len(pool)) if t != i and ref.link is not None and pool[t][1].link == ref.link]
        if op == "permute":
            order = [int(x) for x in r.permutation(ref.nb)]
            act = lambda m: m.permute(order)
            after = ref.clone()
            after.map(lambda h: h[np.ix_(order, order)])
            if after.S is not None:
                after.S = {v: h[np.ix_(order, order)] for v, h in after.S.items()}
        elif op == "normalize":
            if ref.cls == "asym" and m.H.H_r.dtype.kind != "c":
                return None
            if ref.proj is not None:
                # documented: only the symmetrizer is executed
                D = np.outer(ref.proj, ref.proj)
                after = ref.clone()
                after.map(lambda h: (h + h * D) / 2)
            before = content(m)[0]
            k = models.kpoints(plan["dim"], 4)
            if ref.S is not None and np.min(np.linalg.eigvalsh(Ref.series(ref.S, np.zeros((1, ref.dim)))[0])) < 1e-3:
                return None
            want = m(k)
            act = lambda m: m.normalize()
        elif op in ("set", "roundtrip"):
            if op == "roundtrip":
                arr = np.array(m.params_complex())
            else:
                arr = r.standard_normal(np.shape(m.params_complex())) + 1j * r.standard_normal(np.shape(m.params_complex()))
                arr[0] = (arr[0] + np.conj(arr[0].T)) / 2
                if ref.herm:
                    arr = (arr + np.conj(np.swapaxes(arr, -1, -2))) / 2
            keep = arr.copy()
            act = (lambda m: m.set_from_complex(arr)) if ref.cls == "asym" else (lambda m: m.set_params_complex(arr))
            nei = m.H.neighbors if ref.cls == "asym" else m.neighbors
            after = ref.clone()
            after.H = {key(v): np.array(h) for v, h in zip(nei, keep)}
        elif op == "transform":
            A = np.array([np.eye(ref.dim), np.diag(1 + np.arange(ref.dim)), np.eye(ref.dim)[::-1]][r.randint(3)], dtype=float)
            if r.uniform() < 0.3:
                A = A + np.triu(np.ones((ref.dim, ref.dim)), 1)
            if np.max(np.abs(list(ref.H))) > 1e4:
                return None
            act = lambda m: m.transform(A)
            after = ref.clone()
            # documented: the neighbours are transformed by A (lattice vectors in its columns)
            after.H = {key(A @ np.array(v)): h for v, h in after.H.items()}
            if after.S is not None:
                after.S = {key(A @ np.array(v)): h for v, h in after.S.items()}
            o = dict(o)
            if ref.cls == "band":
                o.pop("ki", None)
        elif op == "add":
            if len(ref.H) > MAX_NEI:
                return None
            cand = models.many_neighbors(ref.dim, 40)
            have = set(ref.H) | {key(-np.array(v)) for v in ref.H}
            new = [v for v in cand if key(v) not in have][:r.randint(1, 5)]
            if not new:
                return None
            act = lambda m: m.H.add_neighbors(new)
            after = ref.clone()
            for v in new:
                after.H[key(v)] = np.zeros((ref.nb, ref.nb), dtype=complex)
        elif op == "limit":
            x = [0.0, 1.0, 1.2, 2.0, 2.5, 4.0][r.randint(6)]
            act = lambda m: m.H.limit_neighbors(x)
            after = ref.clone()
            after.H = {v: h for v, h in ref.H.items() if np.linalg.norm(v) <= x + 1e-7}
        elif op == "count":
            x = int(r.randint(1, len(ref.H) + 3))
            act = lambda m: m.H.limit_neighbor_count(x)
        elif op == "cleanup":
            norms = sorted(np.linalg.norm(h) for h in ref.H.values())
            t = r.randint(len(norms))
            x = norms[t] * 1.001 + 1e-9 if r.randint(2) else 1e-6
            if any(abs(x - y) < 1e-6 * max(x, 1e-3) for y in norms):
                return None
            act = lambda m: m.H.cleanup_neighbors(x)
            after = ref.clone()
            after.H = {v: h for v, h in ref.H.items() if np.linalg.norm(h) >= x or v == z}
        done = True
        if "ki" in o:
            probe = m.copy()
            with Tracer("KI", None) as t:
                act(probe)
            at = min(int(o["ki"] * t.n), t.n - 1)
            try:
                with Tracer("KI", at) as t2:
                    act(m)
            except KeyboardInterrupt:
                done = False
                ctx.fault("interrupt")
            if not done:
                H, S = content(m)
                if after is not None and models.content_diff(H, ref.H, 1e-9 * ref.scale()) is not None:
                    done = True
                elif after is None:
                    done = models.content_diff(H, ref.H, 1e-12 * ref.scale()) is not None
                if ref.S is not None and models.content_diff(S, ref.S, 1e-12) is not None:
                    done = True
        else:
            act(m)
        if not done:
            return [i]
        if after is not None:
            if op in ("set", "roundtrip") and not np.array_equal(arr, keep):
                raise Violation(f"argument-changed-{op}", f"step {self.n}: setting the coefficients changed the caller's array")
            pool[i] = (m, after)
            if op == "transform" and ref.link is not None:
                for t in range(len(pool)):
                    if t != i and pool[t][1].link == ref.link:
                        pool[t][1].H = {key(A @ np.array(v)): h for v, h in pool[t][1].H.items()}
                        touched.append(t)
            return touched
        H, S = content(m)
        if op == "normalize":
            d = models.bands_diff(m, want, k, 1e-7 * len(ref.H), floor=ref.scale())
            if d:
                raise Violation(f"bands-normalize-{ref.cls}", f"step {self.n} {o}: normalising changed the bands: {d}")
            if set(H) != set(ref.H):
                raise Violation(f"normalize-neighbours-{ref.cls}", f"step {self.n} {o}")
            new = ref.clone()
            new.H = H
            if new.S is not None:
                new.S = S
            pool[i] = (m, new)
        elif op == "count":
            if len(H) != min(x, len(ref.H)):
                raise Violation("count-number", f"step {self.n}: limit_neighbor_count({x}) of {len(ref.H)} kept {len(H)}")
            if not set(H) <= set(ref.H):
                raise Violation("count-neighbours", f"step {self.n}: limit_neighbor_count invented a neighbour")
            kept = max(np.linalg.norm(v) for v in H)
            lost = min([np.linalg.norm(v) for v in ref.H if v not in H] + [np.inf])
            if lost < kept - 1e-6:
                raise Violation("count-longest", f"step {self.n}: limit_neighbor_count kept length {kept} but removed {lost}")
            new = ref.clone()
            new.H = {v: ref.H[v] for v in H}
            pool[i] = (m, new)
        return touched

    # ------------------------------------------------------------ files
    def file_of(self, o, ref, m, r):
        fmt = "json"
        if ref.cls == "band" and r.randint(3) == 0:
            fmt = "python"
        return f"{'abc'[o['j'] % 3]}{'.json' if fmt == 'json' else '.repr'}", fmt

    def save(self, o, pool, i, files, root, r, ctx):
        m, ref = pool[i]
        got = self.file_of(o, ref, m, r)
        if got is None:
            return None
        name, fmt = got
        f = SimFS(root)
        if o.get("short"):
            f.short_writes = rng_for("p08", o["seed"])
            ctx.fault("short-write")
        with f:
            m.save(os.path.join(root, name))
        files[name] = [(fmt, ref.clone())]
        return [i]

    def load(self, o, pool, files, root, r, ctx):
        if not files or len(pool) >= MAX_POOL:
            return None
        name = sorted(files)[o["j"] % len(files)]
        self.load_file(name, files, root, pool, r, ctx, o)
        return [len(pool) - 1]

    def load_file(self, name, files, root, pool, r, ctx, o):
        best = None
        fmt = files[name][0][0]
        cls = ["asym", "band"][r.randint(2)] if fmt == "json" else "band"
        if any(ref.S is not None for _, ref in files[name]):
            cls = "asym"
        kw, form = {}, ("none", False, True)
        if cls == "band" and fmt == "json":
            kw = {"cos_reduced": bool(r.randint(2)), "exp": bool(r.randint(2))}
            form = ("none", kw["exp"], kw["cos_reduced"])
        m = models.load(cls, os.path.join(root, name), **kw)
        H, S = content(m)
        for fmt, ref in files[name]:
            d = models.content_diff(H, ref.H, max(1e-9 * ref.scale(), 3e-14))
            if d is None and cls == "asym":
                d = models.content_diff(S, ref.S if ref.S is not None else {key([0] * ref.dim): np.eye(ref.nb)}, 1e-9)
            if d is None:
                best = ref
        if best is None:
            raise Violation(f"loaded-differs-{fmt}", f"step {self.n} {o}: {name} read as {cls} {kw} differs from what was saved: {d}")
        self.links += 1
        sym = best.sym if fmt == "python" else "none"
        new = best.clone(cls=cls, proj=None, herm=best.herm if fmt == "python" else False, link=self.links if cls == "band" else None, sym=sym,
                         form="loaded" if cls == "asym" else ((sym,) + form[1:]))
        # tiny numbers are stored as zero: continue with what is in memory
        new.H = H
        if best.S is not None:
            new.S = S
        pool.append((m, new))

    def crash(self, o, pool, i, files, root, r, ctx):
        """the process dies inside a save; a new one starts from the files"""
        m, ref = pool[i]
        got = self.file_of(o, ref, m, r)
        if got is None:
            return None
        name, fmt = got
        path = os.path.join(root, name)
        aux = simfs.scratch("dry")
        with SimFS(aux) as f:
            m.save(os.path.join(aux, name))
        n_ops = f.opnum
        simfs.drop(aux)
        # one more place than operations: after the save completed
        at = int(o["at"] * (n_ops + 1))
        f = SimFS(root)
        f.fault = Fault(at, o["kind"], False, o["at"])
        died = False
        with f:
            try:
                m.save(path)
            except SimKill:
                died = True
        ctx.fault(o["kind"])
        state = f.crash_state(o["kind"], rng_for("p08crash", o["seed"]))
        simfs.write_state(root, state)
        prev = files.get(name, [])
        if not died and o["kind"] == "kill":
            files[name] = [(fmt, ref.clone())]
        else:
            files[name] = prev + [(fmt, ref.clone())]
        if name not in state:
            if prev:
                raise Violation("file-lost", f"step {self.n} {o}: {name} is gone after the crash")
            del files[name]
        # everything in memory is gone
        pool.clear()
        for name in sorted(files):
            if len(pool) < MAX_POOL:
                self.load_file(name, files, root, pool, r, ctx, o)
                m, ref = pool[-1]
                files[name] = [(files[name][0][0], ref.clone(herm=ref.herm))]
        return list(range(len(pool)))

    def shrink(self, plan):
        for c in shrink_list(plan["ops"], 1):
            yield dict(plan, ops=c)
        for i, o in enumerate(plan["ops"]):
            for kk in ("ki", "short"):
                if kk in o:
                    yield dict(plan, ops=plan["ops"][:i] + [{a: b for a, b in o.items() if a != kk}] + plan["ops"][i + 1:])
