"""P07: neighbour-list edits are all-or-nothing and keep coefficients attached."""
import numpy as np
from tight_binding_redweasel import AsymTightBindingModel, BandStructureModel, HermitianFourierSeries

from .. import models
from ..core import Scenario, Violation, rng_for, shrink_list
from ..interrupt import Tracer, stratify


def key(v):
    return tuple(float(x) + 0.0 for x in np.round(v, 8))


def state(s):
    """dict of a series, exact"""
    nei, H = np.asarray(s.neighbors), np.asarray(s.H_r)
    if len(nei) != len(H):
        return ("torn", len(nei), len(H))
    d = {}
    for v, h in zip(nei, H):
        d[key(v)] = np.ascontiguousarray(h).astype(complex).tobytes()
    return (len(nei), tuple(sorted(d.items())), key(nei[0]) if len(nei) else None)


def order_free(s):
    return s if s[0] == "torn" else (s[0], s[1], s[2])


class SCENARIO(Scenario):
    prop = "P07"
    level = "fault_enumeration"
    rule = "distinct (operation, its effect class, kind of fault, code place hit, outcome, series size) tuples"
    assumptions = ["interrupts arrive where CPython 3.12 checks for signals; an allocation failure precedes any effect of the "
                   "failing instruction",
                   "an operation interrupted after its last effect counts as completed"]
    stubs = "interrupts and allocation failures at instruction granularity"
    quick_runs = 300
    quick_wall = 45.0
    min_evals = 300

    def plan(self, rng, i, tier):
        dim = rng.choice([1, 2, 3])
        target = rng.choice(["series", "series", "asym", "band"])
        p = {"target": target, "dim": dim, "n": rng.randint(1, 9), "nb": rng.randint(1, 3), "seed": rng.randrange(1 << 30),
             "real": rng.random() < 0.2,
             "stretch": rng.choice([None, None, 0.731, 5.43, 0.01]), "limit": 14 if tier == "quick" else 80, "ops": [], "faults": None}
        for _ in range(rng.randint(1, 6)):
            if target == "series" or (target == "asym" and rng.random() < 0.6):
                op = rng.choice(["add", "add", "add-dup", "add-dups", "limit", "count", "cleanup"])
            else:
                op = "transform"
            o = {"op": op, "seed": rng.randrange(1 << 30)}
            if op == "limit":
                o["x"] = rng.choice([0.0, 0.5, 1.0, 1.0, 1.5, 2.0, 2.0**.5, 3.0, 10.0])
                if rng.random() < 0.4:
                    # the length of a neighbour, a little more or less
                    o["of"], o["x"] = rng.randrange(100), rng.choice([0.0, 1e-6, -1e-6, 1e-5, -1e-5, 1e-4, -1e-4, 1e-3, -1e-3])
            if op == "count":
                o["x"] = rng.randint(1, 12)
            if op == "cleanup":
                o["x"] = rng.choice([0.0, 1e-8, 0.5, 1.5, 3.0])
            if op == "add":
                o["x"] = rng.randint(1, 4)
            p["ops"].append(o)
        return p

    def build(self, plan):
        if plan["target"] == "band":
            m = models.make_band(plan["seed"], plan["dim"], plan["n"], plan["nb"], exp=plan["seed"] % 2 == 0)
            return m
        r = models.rs(plan["seed"])
        nei = models.many_neighbors(plan["dim"], 30)
        pick = [0] + sorted(int(x) for x in r.permutation(np.arange(1, 30 if plan["dim"] > 1 else 20))[:plan["n"]])
        r.shuffle(pick[1:])
        nei = nei[[p for p in pick if p < len(nei)]]
        if plan.get("stretch") and plan["target"] == "series":
            nei = nei * plan["stretch"]
        H = models.herm_coeffs(r, len(nei), plan["nb"], dtype=float if plan["real"] else complex)
        for i in range(1, len(H)):
            if r.uniform() < 0.25:
                H[i] *= 1e-9
        s = HermitianFourierSeries(nei, H)
        if plan["target"] == "series":
            return s
        S = models.herm_coeffs(r, 2, plan["nb"]) * 0.01
        S[0] = np.eye(plan["nb"])
        return AsymTightBindingModel(s, HermitianFourierSeries(models.neighbors(plan["dim"], 2), S))

    def new_vectors(self, plan, op, s):
        """neighbours the series does not have yet, or has"""
        r = models.rs(op["seed"])
        have = set(key(v) for v in s.neighbors) | set(key(-v) for v in s.neighbors)
        cand = [v for v in models.many_neighbors(plan["dim"], 60 if plan["dim"] > 1 else 30) * 1.0 if key(v) not in have]
        r.shuffle(cand)
        fresh = cand[:op.get("x", 2)]
        old = list(s.neighbors[r.permutation(len(s.neighbors))[:1]])
        if op["op"] == "add":
            return np.array(fresh), False
        if op["op"] == "add-dup":
            return np.array(old), True
        mix = fresh[:r.randint(1, 3)] + old
        if r.uniform() < 0.5:
            mix = mix[::-1]
        return np.array(mix), True

    def length(self, s, op):
        if "of" not in op:
            return op["x"]
        return max(0.0, float(np.linalg.norm(s.neighbors[op["of"] % len(s.neighbors)])) + op["x"])

    def call(self, x, plan, op):
        s = x.H if isinstance(x, AsymTightBindingModel) else x
        o = op["op"]
        if o == "transform":
            r = models.rs(op["seed"])
            A = np.eye(plan["dim"]) + 0.4 * r.standard_normal((plan["dim"],) * 2)
            return x.transform(A)
        if o == "limit":
            return s.limit_neighbors(self.length(s, op))
        if o == "count":
            return s.limit_neighbor_count(op["x"])
        if o == "cleanup":
            return s.cleanup_neighbors(op["x"])
        vec = self.new_vectors(plan, op, s)[0]
        if len(vec) == 0:
            return None
        return s.add_neighbors([tuple(v) for v in vec] if op["seed"] % 2 else vec)

    def expected(self, x, plan, op):
        """(dict lattice vector -> matrix, return value or None) after the operation, by plain dictionary edits"""
        s = x.H if isinstance(x, AsymTightBindingModel) else x
        d = {key(v): np.array(h, dtype=complex) for v, h in zip(s.neighbors, s.H_r)}
        zero = (0.0,) * plan["dim"]
        o = op["op"]
        if o == "limit":
            new = {k: h for k, h in d.items() if np.linalg.norm(k) <= self.length(s, op) + 1e-7}
            return new, len(d) - len(new)
        if o == "cleanup":
            new = {k: h for k, h in d.items() if k == zero or np.linalg.norm(h) >= op["x"]}
            return new, len(d) - len(new)
        if o == "count":
            n = min(op["x"], len(d))
            return ("count", n, d), len(d) - n
        vec, dup = self.new_vectors(plan, op, s)
        if o in ("add-dup", "add-dups"):
            return d, None
        for v in vec:
            d[key(v)] = np.zeros((plan["nb"],) * 2, dtype=complex)
        return d, None

    def judge(self, x, exp, plan, op, where):
        s = x.H if isinstance(x, AsymTightBindingModel) else x
        if len(s.neighbors) != len(s.H_r):
            raise Violation(f"torn-{op['op']}", f"{where}: {len(s.neighbors)} neighbours but {len(s.H_r)} matrices")
        zero = (0.0,) * plan["dim"]
        if key(s.neighbors[0]) != zero:
            raise Violation(f"zero-not-first-{op['op']}", f"{where}: first neighbour is {s.neighbors[0]}")
        got = {key(v): np.array(h, dtype=complex) for v, h in zip(s.neighbors, s.H_r)}
        if len(got) != len(s.neighbors):
            raise Violation(f"duplicates-{op['op']}", f"{where}: a neighbour appears twice")
        if isinstance(exp, tuple):
            _, n, d = exp
            if len(got) != n or any(k not in d for k in got):
                raise Violation(f"wrong-neighbours-{op['op']}", f"{where}: {len(got)} neighbours kept instead of {n}")
            left = [np.linalg.norm(k) for k in d if k not in got]
            if left and max(np.linalg.norm(k) for k in got) > min(left) + 1e-8:
                raise Violation(f"wrong-neighbours-{op['op']}", f"{where}: a longer neighbour was kept than one removed")
            exp = {k: d[k] for k in got}
        if set(got) != set(exp):
            raise Violation(f"wrong-neighbours-{op['op']}", f"{where}: missing {sorted(set(exp) - set(got))[:3]}, "
                            f"unexpected {sorted(set(got) - set(exp))[:3]}")
        for k in exp:
            if got[k].shape != exp[k].shape or not np.array_equal(got[k], exp[k]):
                raise Violation(f"wrong-matrix-{op['op']}", f"{where}: the matrix of neighbour {k} is not its own")

    def snap(self, x):
        if isinstance(x, HermitianFourierSeries):
            return state(x)
        if isinstance(x, AsymTightBindingModel):
            return (state(x.H), state(x.S))
        return (models.raw(x),)

    def run(self, plan, ctx):
        rng = rng_for("p07", plan["seed"])
        x = self.build(plan)
        for n, op in enumerate(plan["ops"]):
            before = self.snap(x)
            k = models.kpoints(plan["dim"], 4)
            ref = None
            if op["op"] == "transform":
                ref = x(k)
            # fault-free once, on a copy
            y = self.dup(x)
            exp = None
            if op["op"] != "transform":
                exp, ret = self.expected(x, plan, op)
            places = {}
            for kind in ("KI", "ME"):
                y = self.dup(x)
                refused = False
                with Tracer(kind, None) as t:
                    try:
                        got = self.call(y, plan, op)
                    except ValueError:
                        if op["op"] != "add-dups":
                            raise
                        refused = True
                places[kind] = t.points
            if refused:
                if self.snap(y) != before:
                    raise Violation("refused-but-changed", f"{op['op']} raised but changed the series")
            elif op["op"] == "add-dups" and len(self.new_vectors(plan, op, x.H if isinstance(x, AsymTightBindingModel) else x)[0]) > 1:
                raise Violation("duplicates-accepted", "adding a list with an existing neighbour was accepted")
            elif op["op"] != "transform":
                self.judge(y, exp, plan, op, f"op {n} {op}")
                if ret is not None and got != ret:
                    raise Violation(f"wrong-count-{op['op']}", f"{op['op']}({op.get('x')}) reported {got} removed neighbours, "
                                    f"really removed {ret}")
            else:
                self.transformed(x, y, plan, op, k, ref)
            after = self.snap(y)
            fl = plan["faults"]
            if fl is None:
                fl = []
                for kind in ("KI", "ME"):
                    fl += [{"n": n, "kind": kind, "at": at} for at in stratify(places[kind], rng, plan["limit"] // 2)]
            for f in fl:
                if f["n"] != n:
                    continue
                z = self.dup(x)
                tr = Tracer(f["kind"], f["at"])
                raised = None
                try:
                    with tr:
                        self.call(z, plan, op)
                except (KeyboardInterrupt, MemoryError) as e:
                    raised = type(e).__name__
                except ValueError as e:
                    if not refused:
                        raise Violation(f"other-exception-{op['op']}", f"{f['kind']} at {tr.fired} came out as ValueError: {e}", f)
                if tr.fired is None:
                    continue
                ctx.ev()
                ctx.fault(f["kind"])
                s = self.snap(z)
                if s == before:
                    out = "before"
                elif s == after:
                    out = "after"
                else:
                    raise Violation(f"half-done-{op['op']}-{plan['target']}", f"{op} with {f['kind']} at {tr.fired} left the series "
                                    f"neither as it was nor edited", f)
                if raised is None and out == "before" and after != before:
                    raise Violation(f"swallowed-{op['op']}", f"{op} with {f['kind']} at {tr.fired} returned without effect", f)
                if op["op"] == "transform":
                    d = models.bands_diff(z, ref if out == "before" else y(k), k, 1e-9)
                    if d:
                        raise Violation(f"half-done-transform-{plan['target']}", f"interrupted transform: {d}", f)
                ctx.probe(out)
                ctx.state(plan["target"], op["op"], before == after, f["kind"], tr.fired[:2], out, plan["n"], plan["dim"])
                ctx.trace(f, tr.fired, out)
                ctx.sample({"op": op, "fault": f, "place": tr.fired, "state": out})
            if not refused:
                self.call(x, plan, op)
        if plan["target"] != "band":
            (x if plan["target"] == "series" else x.H).f(models.kpoints(plan["dim"], 3))

    def dup(self, x):
        if isinstance(x, BandStructureModel):
            # a copy shares its neighbour list (documented), so build an independent one
            m = BandStructureModel.init_tight_binding(x.sym, x.neighbors.copy(), x.band_count(), cos_reduced=x.cos_reduced, exp=x.exp)
            m.params = x.params.copy()
            return m
        return x.copy()

    def transformed(self, x, y, plan, op, k, ref):
        r = models.rs(op["seed"])
        A = np.eye(plan["dim"]) + 0.4 * r.standard_normal((plan["dim"],) * 2)
        pairs = [(x.H, y.H), (x.S, y.S)] if isinstance(x, AsymTightBindingModel) else [(x, y)]
        for a, b in pairs:
            want = np.asarray(a.neighbors) @ A.T
            if np.shape(b.neighbors) != want.shape or np.max(np.abs(b.neighbors - want)) > 1e-9 * (1 + np.max(np.abs(want))):
                raise Violation(f"wrong-transform-{plan['target']}", "transformed neighbours are not A times the old ones")
        d = models.bands_diff(y, ref, k @ np.linalg.inv(A), 1e-8)
        if d:
            raise Violation(f"wrong-transform-{plan['target']}", f"bands at the transformed k-points changed: {d}")

    def shrink(self, plan):
        for c in shrink_list(plan["ops"], 1):
            yield dict(plan, ops=c, faults=None)
        if plan["faults"] is not None:
            for c in shrink_list(plan["faults"], 0):
                yield dict(plan, faults=c)
        else:
            rng = rng_for("p07", plan["seed"])
            x = self.build(plan)
            fl = []
            for n, op in enumerate(plan["ops"]):
                for kind in ("KI", "ME"):
                    y = self.dup(x)
                    with Tracer(kind, None) as t:
                        try:
                            self.call(y, plan, op)
                        except ValueError:
                            pass
                    fl += [{"n": n, "kind": kind, "at": at} for at in range(min(t.n, 80))]
                try:
                    self.call(x, plan, op)
                except ValueError:
                    pass
            yield dict(plan, faults=fl)
        if plan["nb"] > 1:
            yield dict(plan, nb=1)
