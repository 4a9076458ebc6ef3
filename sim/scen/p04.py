"""P04: a save that reports success has stored exactly the model."""
import os
import random

import numpy as np

from .. import fs as simfs
from .. import models, saving
from ..core import Scenario, Violation, rng_for, shrink_list
from ..fs import SimFS
from .p03 import PRINTOPTS


def special_values(m, r, what):
    """put unusual numbers into the coefficients"""
    cls = type(m).__name__
    if cls == "AsymTightBindingModel":
        H = m.H.H_r
    else:
        H = m.params
    if what == "plain" or H.size == 0:
        return
    bits = [0.1, 1 / 3, 2 / 3 * 1e-7, np.pi, np.nextafter(1.0, 2)]
    idx = [tuple(x) for x in r.permutation(np.argwhere(np.ones(H.shape)))[:max(1, H.size // 2)]]
    vals = {"tiny": [1e-14, 0.99e-14, 1.01e-14, -1e-15, 1e-13, 5e-324, 1e-200],
            "huge": [1e120, -1e95, 1.2345678901234567e111, 123456789012345.678],
            # the symmetric class stores sums of coefficients, very different sizes would only test rounding
            "digits": bits + ([1e22, 1e23, 9007199254740993.0] if cls == "AsymTightBindingModel" else [1234.5678901234567]),
            "zero": [0.0, -0.0]}[what]
    for i in idx:
        x = vals[r.randint(len(vals))]
        H[i] = x if H.dtype.kind != "c" else complex(x, vals[r.randint(len(vals))])
    # keep the zero matrix hermitian, and hermitian matrices where the class wants them
    if cls == "AsymTightBindingModel":
        H[0] = np.triu(H[0]) + np.conj(np.triu(H[0], 1)).T
        H[0].flat[::len(H[0]) + 1] = np.real(np.diag(H[0]))
    else:
        for h in (H if not m.exp else H[:1]):
            h[:] = np.triu(h) + np.conj(np.triu(h, 1)).T
            h.flat[::len(h) + 1] = np.real(np.diag(h))


class SCENARIO(Scenario):
    prop = "P04"
    level = "exploration"
    rule = "distinct (format, class, shape, kind of numbers, write splitting, previous content, formatting, reader) tuples"
    assumptions = ["for models stored as cosine/sine coefficients the complex coefficients are compared up to rounding "
                   "(1e-12 of the largest coefficient), otherwise exactly except values below 1e-14"]
    stubs = "write splitting at the file-operation seam, process kill right after the save returned"
    quick_runs = 480
    quick_wall = 60.0

    def plan(self, rng, i, tier):
        ops = []
        for _ in range(rng.randint(1, 4)):
            fmt = rng.choice(["json", "json", "python"])
            spec = saving.gen_spec(rng, fmt, small=rng.random() < 0.7, overlap=0.3)
            if spec["cls"] == "band":
                if rng.random() < 0.4:
                    spec["sym"] = "none"
                elif fmt == "json" and rng.random() < 0.4:
                    spec.update(sym="cubic", dim=3, n=min(spec["n"], 3), exp=False)
                spec["cos_reduced"] = rng.random() < 0.5
                spec["exp"] = spec["sym"] == "none" and rng.random() < 0.5
            if rng.random() < 0.2 and spec.get("sym") != "cubic":
                spec.update(n=rng.randint(10, 40), nb=rng.randint(1, 6))
            how = rng.choice(["plain", "plain", "tiny", "huge", "digits", "zero"])
            if fmt == "python" and how in ("tiny", "huge"):
                how = "digits"      # sums of very different magnitudes round
            if spec["cls"] == "band" and not (spec["exp"]) and how == "huge":
                how = "plain"
            ops.append({"fmt": fmt, "spec": spec, "values": how, "short": rng.random() < 0.5,
                        "file": rng.choice(["a", "a", "b"]), "opts": rng.randrange(len(PRINTOPTS)),
                        "edit": rng.choice([None, None, "permute", "scale", "normalize", "lattice", "lattice"])})
            if rng.random() < 0.25:
                # the format is given by the caller, the name is anything
                ops[-1]["name"] = rng.choice(["model", "model 1.txt", "m\u00f6del.json.old", ".hidden", "x.json.json", "a.repr"
                                              if fmt == "json" else "a.json", "UPPER.JSON", "-v", "a\tb", "x" * 250, "\u00e9" * 120])
        if i % 60 == 7:
            # beyond the size at which numpy would abbreviate
            op = ops[0]
            op.update(fmt="python", values="plain", short=False, edit=None, spec={
                "cls": "band", "seed": rng.randrange(1 << 30), "dim": 3, "n": 266, "nb": 20, "sym": "inversion",
                "cos_reduced": True, "exp": False})
            ops = ops[:2]
        if i % 60 == 37:
            op = ops[0]
            op.update(fmt="json", values="plain", short=False, edit=None, spec={
                "cls": "asym", "seed": rng.randrange(1 << 30), "dim": 3, "n": 266, "nb": 20, "real": False})
            ops = ops[:2]
        return {"ops": ops, "seed": rng.randrange(1 << 30)}

    def run(self, plan, ctx):
        simfs.quiet_unraisable()
        root = simfs.scratch("p04")
        saved = np.get_printoptions()
        try:
            history = []
            for n, op in enumerate(plan["ops"]):
                self.one(plan, n, op, root, ctx, saved)
        finally:
            np.set_printoptions(**saved)
            simfs.drop(root)

    def one(self, plan, n, op, root, ctx, saved):
        r = models.rs(plan["seed"] + n)
        m = models.make(op["spec"])
        special_values(m, r, op["values"])
        nb = op["spec"]["nb"]
        path = os.path.join(root, op.get("name") or op["file"] + saving.EXT[op["fmt"]])
        kw = {"format": op["fmt"]} if op.get("name") else {}
        if op["edit"] in ("permute", "scale"):
            m.save(path, **kw)          # the file of the same model before the edit
        if op["edit"] == "permute":
            m.permute(list(r.permutation(nb)))
        elif op["edit"] == "scale":
            m = m * 0.5
        elif op["edit"] == "normalize" and op["values"] in ("plain", "digits"):
            m.normalize()
        if op["edit"] == "lattice":
            # neighbours which are no integers
            d = models.dim_of(m)
            A = np.eye(d) * [np.sqrt(2), 1 / 3, 5.431e-3, 17.123456789012345][r.randint(4)]
            if op["spec"].get("sym") != "cubic":
                A = A + np.triu(r.standard_normal((d, d)), 1) * 0.3
            m.transform(A)
        prev = os.path.getsize(path) if os.path.exists(path) else 0
        copies = 1 if op["spec"]["cls"] == "asym" else len(m.sym.S)
        want = models.content(m)
        nei = self.neighbors(m)
        np.set_printoptions(**saved)
        np.set_printoptions(**PRINTOPTS[op["opts"]])
        f = SimFS(root)
        if op["short"]:
            f.short_writes = rng_for("short", plan["seed"], n)
        with f:
            m.save(path, **kw)
        np.set_printoptions(**saved)
        if op["short"]:
            ctx.fault("short-write")
        k = models.kpoints(models.dim_of(m), 3 if nb > 9 else 5)
        # sums of huge numbers overflow
        ref_bands = m(k) if op["values"] != "huge" else None
        ref_f = self.hamiltonian(m, k)
        big = max([np.max(np.abs(h)) for h in want.values()] + [1e-300])
        tol = 1e-14 if op["fmt"] == "json" and (op["spec"]["cls"] == "asym" or op["spec"]["exp"]) else max(1e-12 * big * len(want), 1e-14)
        ftol = (1e-12 * big + 1e-14) * len(want) * copies * nb
        tol *= 1.5      # both parts of a number can be rounded away
        loaders = [op["spec"]["cls"]]
        if op["fmt"] == "json":
            loaders = ["asym", "band"] if not any(v[0] == "S" for v in want) else ["asym", "refuse-band"]
        elif op["spec"].get("sym") == "none":
            loaders = ["band", "asym"]
        # the process goes on, or it was killed right after the save returned
        ctx.fault("kill-after-save")
        aux = simfs.scratch("aux")
        state = f.crash_state("kill", random.Random(0))
        simfs.write_state(aux, {os.path.basename(path): state.get(os.path.basename(path), b"")})
        for where, p in (("running", path), ("killed", os.path.join(aux, os.path.basename(path)))):
            if where == "killed":
                with open(path, "rb") as a, open(p, "rb") as b:
                    if a.read() == b.read():
                        continue        # byte for byte the file just checked
                ctx.probe("killed_differs")
            for cls in loaders:
                ctx.ev()
                tag = f"{op['fmt']}-{op['spec']['cls']}"
                try:
                    m2 = models.load(cls.split("-")[-1], p, **dict(kw))
                    got = models.content(m2)
                except Exception as e:
                    if cls.startswith("refuse"):
                        ctx.probe("overlap_refused")
                        continue
                    raise Violation(f"saved-file-unreadable-{tag}", f"saved {op['fmt']} file ({where}, prints {op['opts']}) cannot "
                                    f"be read by {cls}: {type(e).__name__}: {str(e)[:300]}", op)
                if copies > 1:
                    # the symmetry copies may be stored as neighbours of their own
                    if op["values"] != "huge":
                        d = np.max(np.abs(self.hamiltonian(m2, k) - ref_f))
                        if not d <= ftol:
                            raise Violation(f"saved-hamiltonian-differs-{tag}", f"saved as {op['fmt']} by a model with symmetry, read by "
                                            f"{cls} ({where}): the Hamiltonian differs by {d:.3e}", op)
                    got = want
                else:
                    n2 = self.neighbors(m2)
                    if n2 != nei:
                        raise Violation(f"saved-neighbours-differ-{tag}", f"saved as {op['fmt']}, read by {cls} ({where}): neighbours "
                                        f"{sorted(n2 ^ nei)[:4]} are not in both", op)
                if op["fmt"] == "python" and cls == op["spec"]["cls"] and models.symmetry_of(m2) != models.symmetry_of(m):
                    raise Violation(f"saved-symmetry-differs-{tag}", f"saved as {op['fmt']}, read by {cls} ({where}): the symmetry is "
                                    f"{models.symmetry_of(m2)} instead of {models.symmetry_of(m)}", op)
                diff = models.content_diff(got, want, tol)
                if diff:
                    raise Violation(f"saved-model-differs-{tag}", f"saved as {op['fmt']} by {op['spec']['cls']}, read by {cls} "
                                    f"({where}): {diff}", op)
                if op["values"] != "huge":
                    d = models.bands_diff(m2, ref_bands, k, 1e-9 + 10 * tol * len(want) * nb)
                    if d:
                        raise Violation(f"saved-bands-differ-{tag}", f"saved as {op['fmt']}, read by {cls}: {d}", op)
                ctx.state(op["fmt"], op["spec"]["cls"], op["spec"]["nb"], op["spec"]["n"], op["spec"]["dim"], op["values"],
                          op["short"], prev > 0, op["opts"], cls, where, op["edit"], copies, bool(op.get("name")))
        simfs.drop(aux)
        ctx.sample({"op": {k: v for k, v in op.items()}, "bytes": os.path.getsize(path), "previous": prev})

    @staticmethod
    def neighbors(m):
        """the exact neighbour vectors, the overlap's too"""
        if models.is_asym(m):
            parts = [("H", m.H.neighbors), ("S", m.S.neighbors if len(m.S.neighbors) > 1 else [])]
        else:
            parts = [("H", m.neighbors)]
        return {(w,) + tuple(float(x) + 0.0 for x in v) for w, a in parts for v in np.asarray(a)}

    @staticmethod
    def hamiltonian(m, k):
        with np.errstate(all="ignore"):
            return m.H.f(k) if models.is_asym(m) else m.f(k)

    def shrink(self, plan):
        for c in shrink_list(plan["ops"], 1):
            yield dict(plan, ops=c)
        for i, op in enumerate(plan["ops"]):
            for ch in ({"short": False}, {"edit": None}, {"opts": 0}, {"values": "plain"}):
                if any(op[k] != v for k, v in ch.items()):
                    yield dict(plan, ops=plan["ops"][:i] + [dict(op, **ch)] + plan["ops"][i + 1:])
