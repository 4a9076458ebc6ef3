"""P06: an interrupted or failing basis change never changes the band structure."""
import numpy as np

from .. import models
from ..core import Scenario, Violation, rng_for, shrink_list
from ..interrupt import Tracer, stratify
from . import p05


def gen_spec(rng):
    cls = rng.choice(["asym", "band"])
    spec = {"cls": cls, "seed": rng.randrange(1 << 30), "dim": rng.choice([1, 2, 3]), "n": rng.randint(1, 6), "nb": rng.randint(1, 4)}
    if cls == "asym":
        spec["overlap"] = rng.random() < 0.5
        spec["real"] = rng.random() < 0.15 and not spec["overlap"]
        if spec["overlap"] and rng.random() < 0.5:
            spec["sn"] = rng.choice([1, 1, 2, spec["n"] + 2])
        if spec["overlap"] and rng.random() < 0.3:
            spec["soft"] = rng.choice([0.3, 0.05, 0.02, 0.01])
    else:
        spec["sym"] = rng.choice(["none", "none", "inversion", "oh"])
        spec["exp"] = spec["sym"] == "oh" or rng.random() < 0.5
        spec["cos_reduced"] = spec["sym"] != "oh" and rng.random() < 0.4
        if spec["sym"] == "oh":
            spec.update(dim=3, nb=rng.choice([3, 4]), n=2)
    if rng.random() < 0.35 and spec.get("sym") != "oh":
        spec["scale"] = rng.choice([1e-6, 1e-6, 1e-4, 1e4])
    return spec


def floor(plan):
    """energy scale below which differences count as rounding (values below 1e-14 are zeroed at some places)"""
    return min(1.0, max(1e-4, plan["spec"].get("scale", 1.0)))


def build(plan):
    return p05.build({"spec": plan["spec"], "keep_zeros": plan["zeros"], "seed": plan["seed"]})


def apply(m, op):
    if op["op"] == "normalize":
        m.normalize()
    elif op["op"] == "permute":
        m.permute(list(op["order"]) if op["form"] == "list" else np.array(op["order"]))
    elif type(m).__name__ == "AsymTightBindingModel":
        m.set_from_complex(m.params_complex())
    else:
        m.set_params_complex(m.params_complex())


class LinAlg(np.linalg.LinAlgError):
    def __init__(self):
        super().__init__("simulated: did not converge")


class SCENARIO(Scenario):
    prop = "P06"
    level = "fault_enumeration"
    rule = "distinct (class, storage form, operation, kind of fault, code place hit, completed or not)"
    assumptions = ["interrupts arrive where CPython 3.12 checks for signals; an allocation failure precedes any effect of the "
                   "failing instruction",
                   "the coefficients have the hermitian form their class works with, and the order is a permutation"]
    stubs = "interrupts, allocation failures and solver failures at instruction granularity"
    quick_runs = 260
    quick_wall = 45.0
    min_evals = 300

    def plan(self, rng, i, tier):
        spec = gen_spec(rng)
        ops = []
        for _ in range(rng.randint(1, 4)):
            op = {"op": rng.choice(["normalize", "normalize", "permute", "set"]), "form": rng.choice(["list", "array"])}
            order = list(range(spec["nb"]))
            rng.shuffle(order)
            op["order"] = order
            ops.append(op)
        return {"spec": spec, "zeros": rng.random() < 0.2, "seed": rng.randrange(1 << 30), "ops": ops,
                "limit": 24 if tier == "quick" else 120, "faults": None}

    def run(self, plan, ctx):
        rng = rng_for("p06", plan["seed"])
        if plan["spec"].get("sym") == "oh":
            plan = dict(plan, ops=[o for o in plan["ops"] if o["op"] != "permute"] or [{"op": "normalize"}])
        m = build(plan)
        k = models.kpoints(plan["spec"]["dim"], 6)
        for n, op in enumerate(plan["ops"]):
            before = m(k)
            self.attempts(plan, m, op, n, k, before, ctx, rng)
            apply(m, op)
            self.neutral(m, before, k, op, plan, "fault-free")

    def neutral(self, m, before, k, op, plan, where):
        try:
            d = models.bands_diff(m, before, k, 1e-9, floor=floor(plan))
            m.copy()
        except Exception as e:
            raise Violation(f"unusable-{op['op']}-{plan['spec']['cls']}", f"{where}: {op['op']} left an unusable model: "
                            f"{type(e).__name__}: {e}")
        if d:
            raise Violation(f"bands-changed-{op['op']}-{plan['spec']['cls']}", f"{where}: {op['op']} changed the bands: {d}")

    def attempts(self, plan, m, op, n, k, before, ctx, rng):
        faults = plan["faults"]
        if faults is None:
            faults = []
            for kind in ("KI", "ME", "LA"):
                c = m.copy()
                with Tracer("KI" if kind == "KI" else "ME", None) as t:
                    apply(c, op)
                lim = plan["limit"] // 3
                for at in stratify(t.points, rng, lim):
                    f = {"n": n, "kind": kind, "at": at}
                    if rng.random() < 0.15:
                        f["again"] = rng.randrange(t.n)
                    faults.append(f)
        want = m.copy()
        apply(want, op)
        for f in faults:
            if f["n"] != n:
                continue
            c = m.copy()
            hits = []
            for at in [f["at"]] + ([f["again"]] if "again" in f else []):
                tr = Tracer("KI" if f["kind"] == "KI" else "ME", at, exc=LinAlg if f["kind"] == "LA" else None)
                raised = None
                try:
                    with tr:
                        apply(c, op)
                except (KeyboardInterrupt, MemoryError, LinAlg) as e:
                    raised = type(e).__name__
                except Exception as e:
                    raise Violation(f"other-exception-{op['op']}", f"{f['kind']} at {tr.fired} in {op['op']} came out as "
                                    f"{type(e).__name__}: {e}", f)
                hits.append((tr.fired, raised))
                if tr.fired is not None:
                    ctx.fault(f["kind"])
                if "again" in f and at == f["at"]:
                    continue
                ctx.ev()
                self.neutral(c, before, k, op, plan, f"{f['kind']} at {hits}")
            try:
                apply(c, op)
            except Exception as e:
                raise Violation(f"retry-fails-{op['op']}-{plan['spec']['cls']}", f"{f['kind']} at {hits}: repeating {op['op']} "
                                f"raises {type(e).__name__}: {e}", f)
            self.neutral(c, before, k, op, plan, f"{f['kind']} at {hits}, then repeated")
            if op["op"] == "normalize":
                self.normal(c, want, plan, f, hits)
            ctx.state(plan["spec"]["cls"], plan["spec"].get("sym"), plan["spec"].get("exp"), plan["spec"].get("overlap"),
                      op["op"], f["kind"], hits[0][0][:2] if hits[0][0] else None, "again" in f)
            ctx.trace(f, hits)
            ctx.sample({"op": op["op"], "class": plan["spec"]["cls"], "fault": f["kind"], "place": hits[0][0]})

    def normal(self, c, want, plan, f, hits):
        """the repeated normalisation reached a normal form: diagonal at k=0"""
        if plan["spec"]["cls"] == "asym":
            z = np.zeros((1, plan["spec"]["dim"]))
            a, b = c.H.f(z)[0], want.H.f(z)[0]
            s = c.S.f(z)[0]
            if np.max(np.abs(s - np.eye(len(s)))) > 1e-7:
                raise Violation("retry-incomplete-normalize", f"after {hits} and a repeat the overlap at k=0 is not the identity", f)
        elif plan["spec"].get("sym") == "oh":
            return
        else:
            a, b = c.params[0], want.params[0]
        tol = 1e-7 * max(floor(plan), np.max(np.abs(b)))
        off = a - np.diag(np.diag(a))
        offw = b - np.diag(np.diag(b))
        if np.max(np.abs(offw)) < tol and np.max(np.abs(off)) > tol:
            raise Violation("retry-incomplete-normalize", f"after {hits} and a repeat the model is not normalised", f)

    def shrink(self, plan):
        for i in range(len(plan["ops"])):
            if len(plan["ops"]) > 1:
                yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:], faults=None)
        if plan["faults"] is None:
            # collect what the run would do
            got = []
            rng = rng_for("p06", plan["seed"])
            m = build(plan)
            for n, op in enumerate(plan["ops"]):
                for kind in ("KI", "ME", "LA"):
                    c = m.copy()
                    with Tracer("KI" if kind == "KI" else "ME", None) as t:
                        apply(c, op)
                    got += [{"n": n, "kind": kind, "at": at} for at in stratify(t.points, rng, 3 * plan["limit"])]
                apply(m, op)
            yield dict(plan, faults=got)
        else:
            for c in shrink_list(plan["faults"], 0):
                yield dict(plan, faults=c)
