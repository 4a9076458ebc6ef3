"""P18: text and XML results are read completely or not at all, and a failed read leaves the crystal alone."""
import os
import random
import re

import numpy as np

from .. import fs as simfs
from .. import interrupt, qe
from ..core import Scenario, Violation, rng_for, shrink_list
from ..fs import Fault, SimFS
from . import p02
from tight_binding_redweasel import qespresso_interface as lib

HA = 27.21138625
RY = 13.605693125
BOHR8 = 0.52917721

READERS = ["bands", "bands-incomplete", "projections", "order", "valence", "cutoff", "dielectric", "bandx_raw", "bandx",
           "dos", "wannier"]
# readers of one crystal whose files announce how much is in them
ANNOUNCED = {"bands", "bands-incomplete", "projections", "order", "valence", "cutoff", "bandx_raw", "wannier"}

OH = [np.array(m) for m in (
    np.eye(3), -np.eye(3), [[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[-1, -1, -1], [1, 0, 0], [0, 1, 0]],
    [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]], [[-1, 0, 0], [0, -1, 0], [1, 1, 1]])]


def num(x, w=10, d=4):
    return f"%{w}.{d}f" % x


def make(spec):
    """file name -> content, reader -> (files it reads, expected result)"""
    rng = rng_for("p18-make", spec["seed"])
    r = np.random.RandomState(spec["seed"])
    c = spec["crystal"]
    name = c["name"]
    files, want = {}, {}
    # ---- pw.x
    nk, nb = spec["nk"], spec["nb"]
    d = qe_deck(c)
    out = {"cell": d["cell"] * spec["scale"], "atoms": d["atoms"]}
    alat = np.linalg.norm(out["cell"][0])
    B = np.linalg.inv(out["cell"]) * alat                   # columns b1, b2, b3 in 2 pi/alat
    kc = r.uniform(-0.5, 1, (nk, 3))
    if spec["nice"]:
        kc = np.round(kc * 4) / 4
    e = np.sort(r.uniform(-0.5, 2, (nk, nb)), axis=1)
    syms = [(OH[0], np.zeros(3))]
    for m in rng.sample(OH[1:], rng.randint(0, 4)):
        t = np.zeros(3)
        if spec["nonsym"] and rng.random() < 0.6:
            t = np.array([rng.choice([0, 0.5, 0.25, -1 / 3]) for _ in range(3)])
        syms.append((m, t))
    lattice = rng.sample(OH, rng.choice([0, 0, 1, 3]))
    # optional parts of the format: no list of symmetries at all, no translation where it is zero
    r2 = rng_for("p18-symmetry", spec["seed"])
    nosym, bare = r2.random() < 0.12, r2.random() < 0.3
    if nosym:
        syms = syms[:1]
    fermi = float(r.uniform(-0.2, 0.6))
    for which, reader in ((f"qe-data/{name}.xml", "bands"), (f"qe-data/{name}.save/data-file-schema.xml", "bands-incomplete")):
        if reader == "bands-incomplete":
            e = e + 0.125
            fermi += 0.0625
        files[which] = qe.result_xml(d, out, {"b": B.T, "k": (B @ kc.T).T, "e": e, "fermi": fermi, "syms": syms,
                                              "lattice_syms": lattice, "nosym": nosym, "bare": bare}, {"nk": 1}, steps=spec["steps"])
        S = [m.astype(float) for m, _ in syms]
        if any(np.abs(t).max() > 1e-10 for _, t in syms):
            S = [np.block([[m, t[:, None]], [np.zeros((1, 3)), np.eye(1)]]) for m, t in syms]
        S = np.array([np.linalg.inv(m.T) for m in S])
        A = out["cell"].T * (BOHR8 if c["unit"] == "angstrom" else 1.0)
        want[reader] = ([which], {"k": kc, "bands": e * HA, "S": S, "fermi": fermi * HA, "A": A})
    # ---- projwfc.x
    nw, ns = spec["nw"], spec["ns"]
    pk = r.uniform(-1, 1, (nk, 3))
    pe = np.sort(r.uniform(-1, 2, (nk, nb)), axis=1)
    pr = r.standard_normal((nk, nb, ns, nw)) + 1j * r.standard_normal((nk, nb, ns, nw))
    n2 = ns * nw
    ov = r.standard_normal((nk, n2, n2)) + 1j * r.standard_normal((nk, n2, n2)) if spec["ovps"] else None
    x = ('<?xml version="1.0" encoding="UTF-8"?>\n<PROJECTIONS>\n'
         f'  <HEADER NUMBER_OF_BANDS="{nb}" NUMBER_OF_K-POINTS="{nk}" NUMBER_OF_SPIN_COMPONENTS="{ns}" '
         f'NUMBER_OF_ATOMIC_WFC="{nw}" NUMBER_OF_ELECTRONS="{float(spec["nel"])!r}" FERMI_ENERGY="{fermi!r}"/>\n  <EIGENSTATES>\n')

    def pairs(z):
        return "\n".join(f"  {v.real: .15E}  {v.imag: .15E}" for v in np.ravel(z))

    for i in range(nk):
        x += f'    <K-POINT Weight="{qe.fnum(1 / nk)}">{qe.vec(pk[i])}</K-POINT>\n    <E>\n{qe.rows(pe[i])}\n    </E>\n    <PROJS>\n'
        order = [(w, s) for s in range(ns) for w in range(nw)]
        for w, s in order:
            x += f'      <ATOMIC_WFC index="{w + 1}" spin="{s + 1}">\n{pairs(pr[i, :, s, w])}\n      </ATOMIC_WFC>\n'
        x += "    </PROJS>\n"
    x += "  </EIGENSTATES>\n"
    if ov is not None:
        x += "  <OVERLAPS>\n"
        for i in range(nk):
            x += f'    <OVPS dim="{n2}" spin="1">\n{pairs(ov[i])}\n    </OVPS>\n'
        x += "  </OVERLAPS>\n"
    x += "</PROJECTIONS>\n"
    f = f"qe-data/{name}.save/atomic_proj.xml"
    files[f] = x.encode()
    want["projections"] = ([f], {"k": pk, "bands": pe * RY, "proj": pr, "ov": ov, "fermi": fermi * RY, "nel": float(spec["nel"])})
    # ---- projwfc.out
    x = "\n     Program PROJWFC v.7.3.1 starts on 16Sep2024 at 22:24:23\n\n     state #   1: atom   1 (X  ), wfc  1 (l=0 m= 1)\n\n" \
        "Lowdin Charges: \n\n"
    order = []
    subs = {"p": ["pz", "px", "py"], "d": ["dz2", "dxz", "dyz", "dx2-y2", "dxy"]}
    for a, t in enumerate(c["types"]):
        for sh in ["s"] + rng.choice([[], ["p"], ["d"], ["p", "d"]]):
            x += f"     Atom # {a + 1:3d}: total charge = {num(r.uniform(1, 9), 8)}, "
            x += ", ".join(f"{k} = {num(r.uniform(0, 2), 8)}" if k in "spd" else f"{k}= {num(r.uniform(0, 2), 8)}"
                           for k in [sh] + subs.get(sh, [])) + ", \n"
            order += [f"{a + 1}{t}_{k}" for k in ([sh] if sh == "s" else subs[sh])]
    sp = round(float(r.uniform(0, 0.1)), 4)
    x += f"     Spilling Parameter: {num(sp, 8)}\n\n     PROJWFC      :      0.28s CPU      0.38s WALL\n\n   JOB DONE.\n"
    f = f"{name}.projwfc.out"
    files[f] = x.encode()
    want["order"] = ([f], {"order": order, "spilling": sp})
    # ---- pseudopotentials
    val, cut, pf = {}, {}, []
    for i, t in enumerate(dict.fromkeys(c["types"])):
        val[t], cut[t] = rng.randint(1, 20), round(rng.uniform(20, 90), 3)
        f = f"pseudo/{c['pp'][t]}"
        files[f] = qe.pseudo_bytes(t, cut[t], float(val[t]), seed=i, pad=spec["pad"])
        pf.append(f)
    want["valence"] = (pf, {"n": sum(val[t] for t in c["types"])})
    want["cutoff"] = (pf, {"cut": max(cut.values())})
    # ---- epsilon.x
    n = spec["rows"]
    w = np.round(np.linspace(0, 30, n), 9)
    er, ei = np.round(r.uniform(-9, 9, (2, n, 3)), 9)
    for f, m in ((f"epsr_{name}.dat", er), (f"epsi_{name}.dat", ei)):
        s = "# energy grid [eV]     epsr_x  epsr_y  epsr_z\n#\n# \n" if spec["eps_head"] else \
            " # energy grid [eV]     epsr_x  epsr_y  epsr_z\n #  plasmon frequences   1.0 1.0 1.0\n #\n"
        s += "".join("".join(f"{v:15.9f} " for v in (w[i], *m[i])).rstrip() + "\n" for i in range(n))
        files[f] = s.encode()
    want["dielectric"] = ([f"epsr_{name}.dat", f"epsi_{name}.dat"], {"w": w, "eps": er + 1j * ei})
    # ---- bands.x
    bk = np.round(r.uniform(-1, 1, (nk, 3)), 6)
    be = np.round(np.sort(r.uniform(-20, 40, (nk, nb)), axis=1), 3)
    s = f" &plot nbnd={nb:4d}, nks={nk:6d} /\n"
    for i in range(nk):
        s += "            " + "".join(num(v, 10, 6) for v in bk[i]) + "\n"
        for j in range(0, nb, 10):
            s += "".join(f" {v:8.3f}" for v in be[i, j:j + 10]) + "\n"
    files[f"{name}.Bandx.dat"] = s.encode()
    want["bandx_raw"] = ([f"{name}.Bandx.dat"], {"k": bk, "bands": be})
    xs = np.round(np.cumsum(np.abs(r.uniform(0, 0.3, nk))), 4)
    s = ""
    for j in range(nb):
        s += "".join(f"{num(xs[i])}{num(be[i, j])}\n" for i in range(nk)) + "\n"
    gnu = f"{name}.Bandx.dat.gnu"
    files[gnu] = s.encode()
    marks = sorted(rng.sample(range(nk), min(nk, rng.randint(1, 4))))
    s = "\n     Program BANDS v.7.3.1 starts on 16Sep2024 at 22:24:23\n\n"
    for i in marks:
        s += "     high-symmetry point: " + "".join(num(v, 8) for v in bk[i]) + f"   x coordinate {num(xs[i], 9)}\n"
    s += f"\n     Plottable bands (eV) written to file {gnu}\n     Bands written to file {name}.Bandx.dat\n\n   JOB DONE.\n"
    files[f"{name}.bandx.out"] = s.encode()
    want["bandx"] = ([f"{name}.bandx.out", gnu], {"x": xs[marks], "z": np.array([np.tile(xs, nb), be.T.ravel()])})
    # ---- dos.x
    E = np.round(np.linspace(-10, 20, n), 3)
    dd, ii = np.abs(r.uniform(0, 3, (2, n)))
    ef = round(float(r.uniform(-3, 12)), 3)
    s = f"#  E (eV)   dos(E)     Int dos(E) EFermi = {num(ef, 8, 3)} eV\n"
    rows = []
    for i in range(n):
        a = [f"{E[i]:8.3f}", f"{dd[i]:.4E}", f"{ii[i]:.4E}"]
        rows.append([float(v) for v in a])
        s += f"{a[0]}  {a[1]}  {a[2]}\n"
    files[f"{name}.Dos.dat"] = s.encode()
    want["dos"] = ([f"{name}.Dos.dat"], {"rows": np.array(rows).T, "fermi": ef})
    # ---- wannier90.x
    t = p02.make_tb(spec["seed"] % 1000003, spec["npts"], spec["nbw"])
    files[f"{name}_tb.dat"] = t.encode()
    want["wannier"] = ([f"{name}_tb.dat"], parse_tb(t))
    return files, want


def qe_deck(c):
    """what pw.x would have understood (without going through the library)"""
    e = qe.expected(c, 45.0)
    occ, sm, dg = ("smearing", "mv", 0.02) if c["T"] == 0 else ("smearing", "fd", c["T"] * qe.RY_KELVIN)
    return {"calculation": "nscf", "prefix": c["name"], "outdir": "./qe-data/", "cell": e["cell"], "atoms": e["atoms"],
            "species": [(n, *v) for n, v in e["species"].items()], "ecut": e["ecut"], "noncolin": c["rel"], "spinorbit": c["rel"],
            "occupations": occ, "smearing": sm, "degauss": dg, "nat": len(e["atoms"]), "ntyp": len(e["species"])}


def parse_tb(text):
    H, R, pos = {}, {}, None
    for ln in text.split("\n")[4:]:
        t = ln.split()
        if len(t) == 3:
            pos = tuple(int(v) for v in t)
        elif len(t) == 4 and "." in t[-1]:
            H[pos + (int(t[0]) - 1, int(t[1]) - 1)] = complex(float(t[2]), float(t[3]))
        elif len(t) == 8 and "." in t[-1]:
            v = [float(a) for a in t[2:]]
            R[pos + (int(t[0]) - 1, int(t[1]) - 1)] = np.array([complex(*v[0:2]), complex(*v[2:4]), complex(*v[4:6])])
    return {"H": H, "R": R}


class Wrong(Exception):
    pass


def close(what, got, want, tol=1e-9):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Wrong(f"{what} has shape {got.shape} instead of {want.shape}")
    if got.size and not (np.abs(got - want).max() <= tol * max(1.0, np.abs(want).max())):
        i = np.unravel_index(np.argmax(np.nan_to_num(np.abs(got - want), nan=np.inf)), got.shape)
        raise Wrong(f"{what}{[int(v) for v in i]} is {got[i]} instead of {want[i]}")


def prefix(what, got, want, axis, complete, tol=1e-9):
    """rows of a table without an announced length: a cut between two rows leaves a shorter table"""
    got = np.asarray(got)
    if not complete and got.ndim == want.ndim and 0 < got.shape[axis] <= want.shape[axis]:
        want = want.take(range(got.shape[axis]), axis=axis)
    close(what, got, want, tol)


def check(reader, got, w, crystal, whole):
    """whole: no line of the files is missing"""
    if reader.startswith("bands"):
        k, b, S, f = got
        close("k points", k, w["k"])
        close("bands", b, w["bands"])
        close("symmetries", S, w["S"])
        close("fermi energy", f, w["fermi"])
        close("lattice", crystal.A, w["A"])
    elif reader == "projections":
        k, b, p, f, n = got
        close("k points", k, w["k"])
        close("bands", b, w["bands"])
        if w["ov"] is not None:
            if not isinstance(p, tuple) or len(p) != 2:
                raise Wrong("overlaps are missing")
            close("overlaps", p[1], w["ov"])
            p = p[0]
        close("projections", p, w["proj"])
        close("fermi energy", f, w["fermi"])
        close("electron count", n, w["nel"])
    elif reader == "order":
        if list(got[0]) != w["order"]:
            raise Wrong(f"order of orbitals is {list(got[0])} instead of {w['order']}")
        close("spilling", got[1], w["spilling"])
    elif reader == "valence":
        if got != w["n"]:
            raise Wrong(f"{got} valence electrons instead of {w['n']}")
    elif reader == "cutoff":
        close("cutoff", crystal.kinetic_energy_cutoff, w["cut"])
    elif reader == "dielectric":
        prefix("energies", got[0], w["w"], 0, whole)
        prefix("dielectric function", got[1], w["eps"], 0, whole)
        if len(got[0]) != len(got[1]):
            raise Wrong("energies and values differ in length")
    elif reader == "bandx_raw":
        close("k points", got[0], w["k"])
        close("bands", got[1], w["bands"])
    elif reader == "bandx":
        close("positions", got[0], w["x"])
        prefix("bands", got[1], w["z"], 1, whole)
    elif reader == "dos":
        prefix("density of states", got[0], w["rows"], 1, whole)
        close("fermi energy", got[1], w["fermi"])
    elif reader == "wannier":
        nbr, H, R = got
        keys = {k[:3] for k in w["H"]}
        seen = set()
        for i, p in enumerate(np.asarray(nbr)):
            p = tuple(int(v) for v in p)
            if p not in keys or p in seen:
                raise Wrong(f"neighbour {p} is not in the file or came twice")
            seen.update([p, tuple(-v for v in p)])
            for (x, y, z, a, b), v in w["H"].items():
                if (x, y, z) == p:
                    close(f"H{p}[{a},{b}]", H[i][a, b], v)
                    close(f"r{p}[{a},{b}]", R[i][a, b], w["R"][x, y, z, a, b])
        if seen != keys:
            raise Wrong(f"neighbours missing: {sorted(keys - seen)[:3]}")


def read(reader, crystal):
    if reader == "bands":
        return crystal.read_bands_crystal()
    if reader == "bands-incomplete":
        return crystal.read_bands_crystal(incomplete=True)
    return {"projections": crystal.read_projections, "order": crystal.read_projections_order_spilling,
            "valence": crystal.read_valence_electrons, "cutoff": crystal.set_cutoff_from_pseudopotentials,
            "dielectric": crystal.read_dielectric_function, "bandx_raw": crystal.read_bandx_raw, "bandx": crystal.read_bandx,
            "dos": crystal.read_dos, "wannier": crystal.read_wannier_tb}[reader]()


def photo(crystal):
    out = {}
    for k, v in vars(crystal).items():
        out[k] = ("a", v.dtype.str, v.shape, v.tobytes() if v.dtype != object else repr(v.tolist())) if isinstance(v, np.ndarray) \
            else (type(v).__name__, repr(v))
    return out


EXPECTED = (OSError, EOFError, ValueError, AssertionError, LookupError, TypeError, AttributeError, ArithmeticError, MemoryError)


def failed(e):
    """an exception that says the file could not be read"""
    return isinstance(e, EXPECTED) or type(e).__module__.startswith("xml")


def put(path, b, plan):
    with open(path, "wb") as fh:
        fh.write(b)
    if plan.get("clock"):
        # a clock which stands, coarse times of the disk, or files which were copied with their times
        os.utime(path, (1700000000, 1700000000))


class SCENARIO(Scenario):
    prop = "P18"
    level = "fault_enumeration"
    rule = "distinct (reader, damage, part of the file the damage starts in, place in the line, outcome)"
    stubs = "the external programs (their output files are generated in the formats of Quantum Espresso 7.3 and wannier90); disk"
    assumptions = ["tables which do not announce their length may be cut between two lines: then the rows of the file come back",
                   "a cut inside the digits of the very last number of a wannier90 file is undetectable"]
    quick_runs = 600
    quick_wall = 60.0

    def plan(self, rng, i, tier):
        c = qe.gen_crystal(rng, max_atoms=5)
        c["ecut"] = 40.0
        spec = {"seed": rng.randrange(1 << 30), "crystal": c, "nk": rng.choice([1, 2, 3, 6]), "nb": rng.choice([1, 2, 5, 11, 12]),
                "nw": rng.choice([1, 2, 4, 9]), "ns": rng.choice([1, 1, 2]), "ovps": rng.random() < 0.5,
                "nel": rng.choice([1, 8, 11]), "nice": rng.random() < 0.5, "nonsym": rng.random() < 0.5,
                "scale": rng.choice([1.0, 1.0, 1.05]), "steps": rng.choice([0, 0, 2]), "rows": rng.choice([1, 2, 3, 12]),
                "pad": rng.choice([1, 4]), "eps_head": rng.random() < 0.5, "npts": rng.choice([1, 2, 3]), "nbw": rng.randint(1, 3)}
        return {"spec": spec, "limit": 14 if tier == "quick" else 90, "seed": rng.randrange(1 << 30), "faults": None,
                "clock": rng.random() < 0.5}

    def faults(self, plan, files, want):
        rng = rng_for("p18", plan["seed"])
        out = []
        for reader in READERS:
            fs, _ = want[reader]
            out.append({"reader": reader, "kind": "none"})
            out.append({"reader": reader, "kind": "rerun"})
            for _ in range(plan["limit"]):
                f = rng.choice(fs)
                b = files[f]
                u = rng.random()
                if u < 0.66:
                    out.append({"reader": reader, "kind": rng.choice(["cut", "cut", "cut", "zeros"]), "file": f,
                                "at": self.place(b, rng)})
                elif u < 0.72:
                    out.append({"reader": reader, "kind": "EIO", "at": rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7])})
                elif u < 0.76:
                    out.append({"reader": reader, "kind": "short", "seed": rng.randrange(1 << 20)})
                elif u < 0.79:
                    out.append({"reader": reader, "kind": "missing", "file": f})
                elif u < 0.84:
                    out.append({"reader": reader, "kind": rng.choice(["KI", "ME"]), "u": rng.random()})
                elif u < 0.88 and reader.startswith("bands") and reader != "bandx":
                    out.append({"reader": reader, "kind": "drop", "file": f, "u": rng.random()})
                elif u < 0.92:
                    # several files cut at once
                    out.append({"reader": reader, "kind": "cuts", "at": {g: self.place(files[g], rng) for g in fs}})
                else:
                    out.append({"reader": reader, "kind": "none"})
        rng.shuffle(out)
        return out

    @staticmethod
    def place(b, rng):
        n = len(b)
        u = rng.random()
        if u < 0.2:
            return rng.randrange(n)
        if u < 0.35:
            return max(0, n - rng.randint(1, 40))
        if u < 0.4:
            return rng.randint(0, min(n - 1, 60))
        marks = [m.end() for m in re.finditer(rb"\n" if u < 0.65 else rb"[\s,<>=\"]+", b)]
        q = rng.choice(marks) + rng.choice([-1, 0, 0, 1])
        return max(0, min(n - 1, q))

    def run(self, plan, ctx):
        simfs.quiet_unraisable()
        spec = plan["spec"]
        files, want = make(spec)
        root = simfs.scratch("p18")
        back, pp = os.getcwd(), lib.pp_files
        faults = plan["faults"] if plan["faults"] is not None else self.faults(plan, files, want)
        if plan.get("clock"):
            ctx.fault("coarse-clock")
        try:
            c = spec["crystal"]
            os.makedirs(f"{root}/qe-data/{c['name']}.save")
            os.makedirs(f"{root}/pseudo")
            os.chdir(root)
            for n, b in files.items():
                put(n, b, plan)
            lib.pp_files = {}
            lib.qe_prepare(dict(c["pp"]))
            crystal = lib.QECrystal(c["name"], np.array(c["A"], float), c["basis"], c["types"], 40.0, unit=c["unit"],
                                    relativistic=c["rel"])
            for f in faults:
                self.one(plan, f, files, want, crystal, root, ctx)
        finally:
            os.chdir(back)
            lib.pp_files = pp
            simfs.drop(root)

    def damage(self, f, files, names):
        """new content of the files, and whether data is gone"""
        k = f["kind"]
        state = {}
        if k in ("cut", "zeros"):
            b = files[f["file"]]
            state[f["file"]] = b[:f["at"]] + (b"\0" * (len(b) - f["at"]) if k == "zeros" else b"")
        elif k == "cuts":
            for g in names:
                state[g] = files[g][:f["at"][g]]
        elif k == "missing":
            state[f["file"]] = None
        elif k == "drop":
            # an output file written before the calculation reached this part: one element is not there
            b = files[f["file"]].decode()
            tags = ["fermi_energy", "band_structure", "reciprocal_lattice", "output", "number"]
            t = tags[int(f["u"] * 1e6) % len(tags)]
            u = f["u"]
            if t == "number":
                m = list(re.finditer(r"<eigenvalues[^>]*>\s*(\S+\s+)", b))
                if len(m) > 1:
                    q = m[int(u * len(m))]
                    state[f["file"]] = (b[:q.start(1)] + b[q.end(1):]).encode()
            else:
                m = list(re.finditer(rf"<{t}\b[^>]*(/>|>.*?</{t}>)", b, re.S))
                if m:
                    q = m[-1]
                    state[f["file"]] = (b[:q.start()] + b[q.end():]).encode()
        return state

    def one(self, plan, f, files, want, crystal, root, ctx):
        reader, k = f["reader"], f["kind"]
        names, w = want[reader]
        if reader == "wannier" and k in ("cut", "cuts"):
            b = files[names[0]]
            at = f["at"] if k == "cut" else f["at"][names[0]]
            last = re.search(rb"\S+\s*$", b)
            if last.start() < at < last.start() + len(last.group().rstrip()):
                return
        if k == "rerun":
            # the calculation ran again with other results
            other, want2 = make(dict(plan["spec"], seed=plan["spec"]["seed"] + 1))
            if sorted(want2[reader][0]) != sorted(names):
                return
            try:
                for n in names:
                    put(n, other[n], plan)
                ctx.fault("rerun")
                self.attempt(plan, f, other, want2, crystal, root, ctx, names, want2[reader][1], {})
            finally:
                for n in names:
                    put(n, files[n], plan)
            return
        state = self.damage(f, files, names)
        for n, b in state.items():
            if b is None:
                os.unlink(n)
            else:
                put(n, b, plan)
        try:
            self.attempt(plan, f, files, want, crystal, root, ctx, names, w, state)
        finally:
            for n in state:
                put(n, files[n], plan)

    def attempt(self, plan, f, files, want, crystal, root, ctx, names, w, state):
        reader, k = f["reader"], f["kind"]
        fsx = SimFS(root)
        if k == "EIO":
            fsx.fault = Fault(f["at"], "EIO")
        elif k == "short":
            fsx.short_reads = random.Random(f["seed"])
        crystal.kinetic_energy_cutoff = 40.0
        crystal.A = np.array(plan["spec"]["crystal"]["A"], float)
        before = photo(crystal)
        tr = None
        if k in ("KI", "ME"):
            with interrupt.Tracer(k, None) as t:
                read(reader, crystal)
            crystal.kinetic_energy_cutoff = 40.0
            crystal.A = np.array(plan["spec"]["crystal"]["A"], float)
            if not t.n:
                return
            tr = interrupt.Tracer(k, int(f["u"] * t.n), record=False)
        raised, got = None, None
        with fsx:
            try:
                if tr is not None:
                    with tr:
                        got = read(reader, crystal)
                else:
                    got = read(reader, crystal)
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt) and k != "KI":
                    raise
                if not isinstance(e, KeyboardInterrupt) and not failed(e):
                    raise
                raised = type(e).__name__
                e.__traceback__ = None
        lost = {n: b for n, b in state.items() if b != files[n]}
        ctx.ev()
        if k != "none" and (lost or k not in ("cut", "zeros", "cuts", "drop", "missing")):
            ctx.fault(k)
        part = self.part(f, files) if "at" in f and "file" in f else None
        ctx.state(reader, k, part, raised)
        ctx.trace(reader, f, raised)
        where = f"{k} {f.get('at', f.get('u', ''))} of {f.get('file', '')} ({part})"
        if raised is not None:
            ctx.probe("raised")
            diff = [a for a, b in photo(crystal).items() if before.get(a) != b] + [a for a in before if a not in vars(crystal)]
            if diff:
                raise Violation(f"failed-read-changes-crystal-{reader}", f"the read failed with {raised} ({where}), but afterwards "
                                f"{diff} of the crystal differ", f)
            if not lost and not fsx.fired and (tr is None or tr.fired is None):
                raise Violation(f"complete-{reader}-rejected", f"reading complete files raised {raised} ({where})", f)
            return
        ctx.probe("returned")
        # the data is there; white space at the end of a file is not data
        gone = [n for n, b in lost.items() if b is None or b.rstrip() != files[n].rstrip()]
        whole = True
        if k in ("cut", "cuts") and reader not in ANNOUNCED:
            whole = False
            if reader == "dielectric":
                # the announced length of each file is the length of the other one
                left = [len([x for x in (state[n] if n in state else files[n]).split(b"\n")[3:] if x.strip()]) for n in names]
                if len(set(left)) > 1:
                    raise Violation("damaged-accepted-dielectric", f"reading {names} of {left} rows returned data ({where})", f)
        try:
            check(reader, got, w, crystal, whole)
        except Wrong as e:
            sig = ("damaged-accepted-" if gone else "wrong-data-") + reader
            raise Violation(sig, f"reading {names} returned wrong data: {e} ({where})", f)
        except (ValueError, TypeError, AttributeError, IndexError) as e:
            raise Violation(f"wrong-result-{reader}", f"the result has an unexpected form: {e!r} ({where})", f)
        ctx.sample({"reader": reader, "damage": f, "outcome": "all data there"})

    @staticmethod
    def part(f, files):
        b, p = files[f["file"]], f["at"]
        head = b[:p]
        line = head.rsplit(b"\n", 1)[-1]
        if f["file"].endswith((".xml", ".UPF", ".upf")):
            m = re.findall(rb"<(/?[A-Za-z][\w:-]*)", head)
            sec = m[-1].decode() if m else ""
        else:
            sec = min(head.count(b"\n"), 6)
        nxt = b[p:p + 1]
        spot = "start" if not line else "space" if nxt.isspace() and line[-1:].isspace() else "end" if nxt.isspace() else "inside"
        return (sec, spot)

    def shrink(self, plan):
        if plan["faults"] is None:
            files, want = make(plan["spec"])
            yield dict(plan, faults=self.faults(plan, files, want))
            return
        for c in shrink_list(plan["faults"], 1):
            yield dict(plan, faults=c)
