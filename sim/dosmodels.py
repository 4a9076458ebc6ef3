"""Small three dimensional solids with metallic bands, and objects built from them."""
import copy
import warnings

import numpy as np
from tight_binding_redweasel import AsymTightBindingModel, BandStructureModel, HermitianFourierSeries, Symmetry
from tight_binding_redweasel import bulk_properties, density_of_states

from . import models

warnings.simplefilter("ignore")


class Plain:
    """any function works as a model"""

    def __init__(self, m):
        self.m = m

    def __call__(self, k):
        return self.m(k)


def make_model(spec):
    r = models.rs(spec["seed"])
    nb, n = spec["nb"], spec["n"]
    nei = models.neighbors(3, max(n, 4)).astype(float)
    H = models.herm_coeffs(r, len(nei), nb) * 0.15
    for i in range(1, len(nei)):
        H[i] /= np.linalg.norm(nei[i])
    H[0] = np.diag(np.arange(nb) * spec.get("gap", 0.9)) + 0.02 * H[0]
    # bands which really depend on k in all directions
    for i in range(1, 4):
        H[i] += -0.25 * np.eye(nb) * (1 + 0.1 * i)
    if spec["cls"] == "asym":
        m = AsymTightBindingModel(HermitianFourierSeries(nei, H))
    else:
        m = BandStructureModel.init_tight_binding(Symmetry.none(), nei, nb, exp=spec.get("exp", True))
        m.set_params_complex(H)
    if spec.get("plain"):
        m = Plain(m)
    return m


LATTICES = [None, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1.2, 0, 0], [0, 0.8, 0], [0, 0, 1.5]],
            [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
            [[1.1, -0.55, 0], [0, 0.9526279, 0], [0, 0, 1.7]], [[0.9, 0.2, -0.1], [0.05, 1.1, 0.3], [0, -0.15, 1.0]]]


def in_space(m, A):
    """the model as a function of k in the space of A"""
    if A is None:
        return m
    m = m.copy()
    m.transform(np.asarray(A, dtype=float))
    return m


def make_dos(spec, check=False):
    m = make_model(spec)
    A = LATTICES[spec.get("lattice", 0)]
    if A is not None and not spec.get("plain"):
        m = in_space(m, A)
    elif A is not None:
        A = None
    return density_of_states.DensityOfStates(m, N=spec["N"], A=None if A is None else np.array(A, dtype=float),
                                             smearing=spec["smearing"], wrap=spec.get("wrap", True),
                                             midpoint=spec.get("midpoint", False),
                                             use_gradients=spec.get("use_gradients", False), check=check)


def gen_spec(rng, for_integral=False):
    s = {"cls": rng.choice(["asym", "band"]), "seed": rng.randrange(1 << 30), "nb": rng.randint(1, 3), "n": rng.randint(4, 6),
         "exp": rng.random() < 0.6, "N": rng.choice([4, 6]), "lattice": rng.choice([0, 0, 1, 2, 3, 4, 5]),
         "smearing": "cubes", "gap": rng.choice([0.9, 0.9, 5.0])}
    if not for_integral:
        s["smearing"] = rng.choice(["cubes", "cubes", "cubes+", "tetras", "spheres"])
        s["plain"] = rng.random() < 0.2
        s["midpoint"] = rng.random() < 0.2
        s["use_gradients"] = s["smearing"] in ("cubes", "spheres") and not s["plain"] and rng.random() < 0.3
        s["wrap"] = s["smearing"] in ("cubes+",) or s["use_gradients"] or rng.random() < 0.7
        if not s["wrap"]:
            s["midpoint"] = False
    return s


def deep(obj, shared):
    """independent copy of an object, sharing the given parts"""
    return copy.deepcopy(obj, {id(x): x for x in shared})


def same(a, b, tol):
    """None or text: the results are (nested tuples of) arrays"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return f"{len(a)} vs {len(b)} parts"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol)
            if d:
                return f"part {i}: {d}"
        return None
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return f"shape {x.shape} vs {y.shape}"
    if x.size == 0:
        return None
    if x.dtype.kind in "OUSb" or y.dtype.kind in "OUSb":
        if x.dtype.kind != "O" and y.dtype.kind != "O":
            return None if np.array_equal(x, y) else f"{str(a)[:80]} vs {str(b)[:80]}"
        return None if a == b else f"{a!r} vs {b!r}"
    nx, ny = np.isnan(x), np.isnan(y)
    if np.any(nx != ny):
        return f"nan at different places ({nx.sum()} vs {ny.sum()})"
    fx, fy = np.isinf(x), np.isinf(y)
    if np.any(fx != fy) or np.any(x[fx] != y[fy]):
        return "infinite at different places"
    ok = ~(nx | fx)
    if not np.any(ok):
        return None
    d = np.max(np.abs(x[ok] - y[ok]))
    s = max(np.max(np.abs(y[ok])), 1e-300)
    if d > tol * s:
        return f"differs by {d:.3e} (size {s:.3e})"
    return None
