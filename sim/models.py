"""Small deterministic models and observations of them."""
import numpy as np
import tight_binding_redweasel as tbr
from tight_binding_redweasel import AsymTightBindingModel, BandStructureModel, HermitianFourierSeries, Symmetry


def rs(seed):
    return np.random.RandomState(seed % (2**32))


NEIGH = {
    1: [(0,), (1,), (2,), (3,), (4,)],
    2: [(0, 0), (1, 0), (0, 1), (1, 1), (1, -1), (2, 0), (0, 2)],
    3: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (1, 0, 1), (0, 1, 1), (2, 0, 0), (1, 1, 1)],
}


def many_neighbors(dim, n):
    """n different half-space lattice vectors, zero first"""
    r = 1
    while ((2 * r + 1)**dim + 1) // 2 < n:
        r += 1
    g = np.stack(np.meshgrid(*[np.arange(-r, r + 1)] * dim, indexing="ij"), -1).reshape(-1, dim)
    keep = []
    for v in g:
        nz = v[np.nonzero(v)]
        if len(nz) == 0 or nz[0] > 0:
            keep.append(v)
    keep = np.array(keep, dtype=float)
    order = np.argsort(np.linalg.norm(keep, axis=-1), kind="stable")
    return keep[order][:n]


def neighbors(dim, n):
    if n <= len(NEIGH[dim]):
        return np.array(NEIGH[dim][:n], dtype=float)
    return many_neighbors(dim, n)


def herm_coeffs(r, n, nb, scale=1.0, dtype=complex):
    H = (r.standard_normal((n, nb, nb)) + 1j * r.standard_normal((n, nb, nb))) * scale
    H[0] = (H[0] + H[0].conj().T) / 2
    H[0] += np.diag(np.arange(nb)) * 0.7 * scale
    if dtype is not complex:
        H = H.real
        H[0] = (H[0] + H[0].T) / 2
    return H


def make_asym(seed, dim=3, n=4, nb=2, overlap=False, real=False, sn=None, soft=None, faint=None):
    r = rs(seed)
    nei = neighbors(dim, n)
    H = HermitianFourierSeries(nei.copy(), herm_coeffs(r, len(nei), nb, dtype=float if real else complex))
    S = None
    if overlap:
        snei = nei if sn is None else neighbors(dim, sn)
        s = herm_coeffs(r, len(snei), nb) * 0.05 / len(snei)
        s[0] = np.eye(nb)
        if sn == 1:
            s[0] += 0.1 * (np.ones((nb, nb)) - np.eye(nb)) + np.diag(0.01 * (1 + np.arange(nb)))
        if faint is not None:
            # almost orthogonal orbitals
            s = s * faint
            s[0] = np.eye(nb) + faint * herm_coeffs(r, 1, nb)[0]
        if soft is not None:
            # nearly dependent orbitals: the same bands in another basis
            B = np.linalg.qr(r.standard_normal((nb, nb)))[0] * np.geomspace(1.0, soft, nb) @ np.linalg.qr(r.standard_normal((nb, nb)))[0]
            s = B.conj().T @ s @ B
            H.H_r = B.conj().T @ H.H_r @ B
        S = HermitianFourierSeries(snei.copy(), s)
    return AsymTightBindingModel(H, S)


SYMS = {
    "none": lambda dim: Symmetry.none(dim) if dim != 3 else Symmetry.none(),
    "inversion": lambda dim: Symmetry.inv(dim) if dim != 3 else Symmetry.inv(),
    "cubic": lambda dim: Symmetry.cubic(True),
    "mirror": lambda dim: Symmetry.mirror_x(False, dim),
}


def make_band(seed, dim=3, n=4, nb=2, sym="none", cos_reduced=False, exp=False):
    r = rs(seed)
    m = BandStructureModel.init_tight_binding(SYMS[sym](dim), neighbors(dim, n), nb, cos_reduced=cos_reduced, exp=exp)
    p = (r.standard_normal(m.params.shape) + 1j * r.standard_normal(m.params.shape))
    if not exp or sym != "none":
        p = (p + p.conj().transpose(0, 2, 1)) / 2
    p[0] = (p[0] + p[0].conj().T) / 2
    p[0] += np.diag(np.arange(nb)) * 0.7
    m.params = p
    return m


def make(spec):
    spec = dict(spec)
    cls = spec.pop("cls")
    tiny = spec.pop("tiny", False)
    scale = spec.pop("scale", None)
    m = make_asym(**spec) if cls == "asym" else make_band(**spec)
    if scale is not None:
        # other units of energy
        if cls == "asym":
            m.H.H_r = m.H.H_r * scale
        else:
            m.params = m.params * scale
    if tiny:
        # numbers a save rounds to zero, in one or both parts
        r = rs(spec["seed"] + 1)
        a = m.H.H_r if cls == "asym" else m.params
        x = r.standard_normal(a.shape) * 10.0**r.randint(-17, -13, a.shape)
        part = r.randint(0, 4, a.shape)
        if np.iscomplexobj(a):
            a.real = np.where(part % 2 == 1, x, a.real)
            a.imag = np.where(part >= 2, x, a.imag)
        else:
            a[...] = np.where(part % 2 == 1, x, a)
        nei = m.H.neighbors if cls == "asym" else m.neighbors
        nei[1:][nei[1:] == 0] *= r.choice([1.0, -1.0])      # negative zeros
    return m


def kpoints(dim, n=7, seed=11):
    return rs(seed).uniform(-0.5, 0.5, (n, dim))


def is_asym(m):
    return isinstance(m, AsymTightBindingModel)


def dim_of(m):
    return m.H.dim() if isinstance(m, AsymTightBindingModel) else len(m.neighbors[0])


def content(m, overlap=True):
    """dict lattice vector -> coefficient matrix; an overlap matrix which is not the identity is included"""
    if isinstance(m, AsymTightBindingModel):
        nei, H = m.H.neighbors, m.H.H_r
    else:
        nei, H = m.neighbors, m.params_complex()
    nei, H = np.asarray(nei), np.asarray(H)
    if len(nei) != len(H):
        return {"length mismatch": np.array([len(nei), len(H)])}
    d = {}
    for v, h in zip(nei, H):
        d[tuple(float(x) + 0.0 for x in np.round(v, 9))] = np.array(h)
    if len(d) != len(nei):
        d["duplicates"] = np.array([len(nei)])
    if overlap and isinstance(m, AsymTightBindingModel):
        S = {}
        for v, h in zip(np.asarray(m.S.neighbors), np.asarray(m.S.H_r)):
            v = tuple(float(x) + 0.0 for x in np.round(v, 9))
            S[v] = S.get(v, 0) + np.array(h)
        if any(np.max(np.abs(h - (0 if any(v) else np.eye(len(h)))), initial=0) > 1e-10 for v, h in S.items()):
            d.update({("S",) + v: h for v, h in S.items()})
    return d


def symmetry_of(m):
    """(operations, inversion) of a BandStructureModel, for comparisons"""
    if is_asym(m) or m.sym is None:
        return None
    return sorted(tuple(np.round(np.asarray(s, dtype=float), 7).ravel() + 0.0) for s in m.sym.S), bool(m.sym.inversion)


def content_diff(a, b, tol=0.0):
    """None if equal, else text"""
    if set(a) != set(b):
        return f"neighbour sets differ: {len(a)} vs {len(b)}, only first: {sorted(map(str, set(a) - set(b)))[:3]}, " \
               f"only second: {sorted(map(str, set(b) - set(a)))[:3]}"
    for k in a:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return f"matrix shape at {k}: {x.shape} vs {y.shape}"
        with np.errstate(all="ignore"):
            d = np.abs(x - y)
        if not np.all(np.isfinite(d)) or (d.size and np.max(d) > tol):
            return f"matrix at {k} differs by {np.max(d) if d.size else 0:.3e}"
    return None


def raw(m):
    """bit-exact in-memory state of a model"""
    if isinstance(m, AsymTightBindingModel):
        parts = [m.H.neighbors, m.H.H_r, m.S.neighbors, m.S.H_r]
    else:
        parts = [m.params, m.neighbors if m.neighbors is not None else np.zeros(0)]
    return tuple((a.shape, str(a.dtype), np.ascontiguousarray(a).tobytes()) for a in map(np.asarray, parts))


def bands_diff(m, ref_bands, k, tol=1e-8, floor=1.0):
    b = m(k)
    if b.shape != ref_bands.shape:
        return f"bands shape {b.shape} vs {ref_bands.shape}"
    d = np.max(np.abs(b - ref_bands)) if b.size else 0.0
    if not d <= tol * max(floor, np.max(np.abs(ref_bands), initial=0.0)):
        return f"bands differ by {d:.3e}"
    return None


def load(cls, path, **kw):
    return (AsymTightBindingModel if cls == "asym" else BandStructureModel).load(path, **kw)
