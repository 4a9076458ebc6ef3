"""P17: binary results are read completely or not at all."""
import os
import random
import struct

import numpy as np

from .. import fs as simfs
from .. import interrupt
from ..core import Scenario, Violation, rng_for, shrink_list
from ..fs import Fault, SimFS
from tight_binding_redweasel import qespresso_interface as lib


def rec(*parts):
    b = b"".join(parts)
    m = struct.pack("=i", len(b))
    return m + b + m


def gvectors(r, n):
    s = int(np.ceil((2 * n) ** (1 / 3))) + 1
    g = np.stack(np.meshgrid(*(np.arange(-s, s + 1),) * 3, indexing="ij"), -1).reshape(-1, 3)
    return g[r.permutation(len(g))[:n]].astype("int32")


def make(spec, factor=1.0):
    """the files of one calculation and what they contain"""
    r = np.random.RandomState(spec["seed"])
    B = np.eye(3) + r.uniform(-0.4, 0.4, (3, 3))       # columns b1, b2, b3
    files, want = {}, {"k": [], "g": [], "evc": []}
    npol, nb = spec["npol"], spec["nb"]
    for ik in range(1, spec["nk"] + 1):
        ng = int(r.randint(1, spec["ng"] + 1))
        mill = gvectors(r, ng)
        kc = r.uniform(-0.5, 0.5, 3)
        if spec["nice"]:
            kc = np.round(kc * 4) / 4
        xk = B @ kc
        evc = factor * (r.standard_normal((nb, npol, ng)) + 1j * r.standard_normal((nb, npol, ng)))
        b = rec(struct.pack("=i", ik), xk.tobytes(), struct.pack("=iid", 1, int(spec["gamma"]), 1.0))
        b += rec(struct.pack("=iiii", ng + 3, ng, npol, nb)) + rec(B.T.tobytes()) + rec(mill.tobytes())
        for i in range(nb):
            b += rec(evc[i].tobytes())
        files[f"wfc{ik}.dat"] = b
        want["k"].append(xk)
        want["g"].append(mill)
        want["evc"].append(np.moveaxis(evc, 1, 2))
    ng = int(r.randint(1, 2 * spec["ng"] + 1))
    mill = gvectors(r, ng)
    rho = factor * (r.standard_normal((spec["nspin"], ng)) + 1j * r.standard_normal((spec["nspin"], ng)))
    b = rec(struct.pack("=iii", int(spec["gamma"]), ng, spec["nspin"])) + rec(B.T.tobytes()) + rec(mill.tobytes())
    for i in range(spec["nspin"]):
        b += rec(rho[i].tobytes())
    files["charge-density.dat"] = b
    files["data-file-schema.xml"] = b"<x/>"
    want["k"] = (np.linalg.inv(B) @ np.array(want["k"]).T).T
    want["rho_g"], want["rho"] = mill, rho
    return files, want


def put(path, b, plan):
    with open(path, "wb") as fh:
        fh.write(b)
    if plan.get("clock"):
        # a clock which stands, coarse times of the disk, or files which were copied with their times
        os.utime(path, (1700000000, 1700000000))


def interesting(b, rng, n):
    """places to cut a file: around every record boundary, at number boundaries, anywhere"""
    out, i = set(), 0
    while i + 4 <= len(b):
        m = struct.unpack("=i", b[i:i + 4])[0]
        for d in (0, 1, 4, 5, 4 + 4, 4 + 8, 4 + 16, 4 + m - 16, 4 + m - 8, 4 + m - 1, 4 + m, 4 + m + 1, 4 + m + 3):
            if 0 <= i + d < len(b):
                out.add(i + d)
        i += m + 8
    out = sorted(out)
    rng.shuffle(out)
    out = out[:n * 2 // 3]
    return out + [rng.randrange(len(b)) for _ in range(n - len(out))]


class SCENARIO(Scenario):
    prop = "P17"
    level = "fault_enumeration"
    rule = "distinct (reader, kind of damage, record the damage lies in, place in the record, raised or not)"
    stubs = "the program which wrote the files (generated as the format documentation of Quantum Espresso says); directory order, disk"
    assumptions = ["4-byte record markers as written by gfortran; the missing last file of a calculation cannot be seen "
                   "from the other files"]
    quick_runs = 1200
    quick_wall = 45.0

    def plan(self, rng, i, tier):
        spec = {"seed": rng.randrange(1 << 30), "nk": rng.randint(1, rng.choice([3, 5, 14])), "nb": rng.choice([1, 1, 2, 3, 5]),
                "ng": rng.choice([1, 2, 3, 8, 30]), "npol": rng.choice([1, 1, 2]), "nspin": rng.choice([1, 1, 2, 4]),
                "gamma": rng.random() < 0.2, "nice": rng.random() < 0.4}
        return {"spec": spec, "limit": 60 if tier == "quick" else 400, "seed": rng.randrange(1 << 30), "faults": None,
                "clock": rng.random() < 0.5}

    def faults(self, plan, files):
        rng = rng_for("p17", plan["seed"])
        lim = plan["limit"]
        out = [{"kind": "order", "seed": rng.randrange(1 << 20)} for _ in range(4)]
        wfc = [f for f in sorted(files) if f.startswith("wfc")]
        names = wfc + ["charge-density.dat"]
        for f in wfc:
            if f != f"wfc{len(wfc)}.dat":
                out.append({"kind": "missing", "file": f})
        out.append({"kind": "missing", "file": "charge-density.dat"})
        picks = rng.sample(wfc, min(3, len(wfc))) + ["charge-density.dat"]
        for f in picks:
            for at in interesting(files[f], rng, lim // 4):
                out.append({"kind": rng.choice(["cut", "cut", "cut", "zeros"]), "file": f, "at": at})
        for f in picks[-2:]:
            for _ in range(3):
                out.append({"kind": "EIO", "file": f, "at": rng.randrange(0, 40)})
            out.append({"kind": "short", "file": f, "seed": rng.randrange(1 << 20)})
            out.append({"kind": "announce", "file": f, "field": rng.randrange(4), "by": rng.choice([1, 1, 2, 40])})
        if len(wfc) > 1:
            out.append({"kind": "twice", "file": rng.choice(wfc), "as": rng.choice(wfc)})
        out.append({"kind": "none"})
        out.append({"kind": "rerun"})
        return out

    def run(self, plan, ctx):
        simfs.quiet_unraisable()
        files, want = make(plan["spec"])
        root = simfs.scratch("p17")
        back = os.getcwd()
        faults = plan["faults"] if plan["faults"] is not None else self.faults(plan, files)
        if plan.get("clock"):
            ctx.fault("coarse-clock")
        try:
            os.makedirs(root + "/qe-data/x.save")
            os.chdir(root)
            for f in faults:
                self.one(plan, f, files, want, root, ctx)
        finally:
            os.chdir(back)
            simfs.drop(root)

    def one(self, plan, f, files, want, root, ctx):
        d = root + "/qe-data/x.save"
        for n in os.listdir(d):
            os.unlink(d + "/" + n)
        names = list(files)
        rng = random.Random(f.get("seed", 0))
        if f["kind"] == "order":
            rng.shuffle(names)
        state = dict(files)
        where = None
        k = f["kind"]
        if k == "missing":
            del state[f["file"]]
        elif k in ("cut", "zeros"):
            b = state[f["file"]]
            state[f["file"]] = b[:f["at"]] + (b"\0" * (len(b) - f["at"]) if k == "zeros" else b"")
            if state[f["file"]] == b:
                return
            where = self.where(b, f["at"])
        elif k == "announce":
            # the header announces more (or less) than the file holds
            b = bytearray(state[f["file"]])
            if f["file"].startswith("wfc"):
                off = 52 + 4 + [4, 4, 8, 12][f["field"]]
            else:
                off = 4 + [4, 4, 8, 8][f["field"]]
            v = struct.unpack("=i", b[off:off + 4])[0] + f["by"]
            b[off:off + 4] = struct.pack("=i", v)
            state[f["file"]] = bytes(b)
            where = f["field"]
        elif k == "twice":
            if f["file"] == f["as"]:
                return
            state[f["as"]] = files[f["file"]]
        for n in names:
            if n in state:
                put(d + "/" + n, state[n], plan)
        if k == "rerun":
            self.rerun(plan, want, root, ctx)
            return
        fsx = SimFS(root)
        fsx.list_rng = rng
        if k == "EIO":
            fsx.fault = Fault(f["at"], "EIO")
        elif k == "short":
            fsx.fault = None
            fsx.short_reads = rng
        for reader in ("wavefunctions", "charge"):
            target = f.get("file")
            hit = target is not None and (target.startswith("wfc") == (reader == "wavefunctions")) and k not in ("short", "EIO")
            raised = None
            n0 = len(fsx.fired)
            with fsx:
                try:
                    c = lib.QECrystal("x", np.eye(3), [[0, 0, 0]], ["Cu"], 30.0)
                    got = c.read_wavefunctions() if reader == "wavefunctions" else c.read_charge_density()
                except (OSError, EOFError, ValueError, AssertionError, IndexError, KeyError, TypeError, struct.error,
                        OverflowError, MemoryError) as e:
                    raised = type(e).__name__
                    e.__traceback__ = None
            if k == "EIO" and len(fsx.fired) > n0:
                hit = True
            ctx.ev()
            if hit:
                ctx.fault(k)
            elif k in ("order", "short"):
                ctx.fault(k)
            ctx.state(reader, k, where, raised, plan["spec"]["npol"], plan["spec"]["nspin"])
            ctx.trace(f, reader, raised)
            if hit and raised is None and k == "EIO":
                hit = False         # the read may have been repeated: then the data must be right
            if hit:
                if raised is None:
                    raise Violation(f"incomplete-{reader}-{k}", f"read_{reader} returned data although {f['file']} is damaged: "
                                    f"{f} (record and place {where})", f)
                continue
            if raised is not None:
                if k == "EIO" and len(fsx.fired) > n0:
                    continue
                raise Violation(f"complete-{reader}-rejected", f"read_{reader} raised {raised} on complete files ({f})", f)
            self.same(reader, got, want, f)
        ctx.sample({"fault": f, "where": where})

    def rerun(self, plan, want, root, ctx):
        """the calculation ran again, with other results, while the crystal object lives on"""
        c = lib.QECrystal("x", np.eye(3), [[0, 0, 0]], ["Cu"], 30.0)
        first = [c.read_wavefunctions(), c.read_charge_density()]
        keep = [np.array(e) for e in first[0][2]] + [np.array(first[1][1])]
        files, new = make(plan["spec"], -2.0)
        for n, b in files.items():
            put(root + "/qe-data/x.save/" + n, b, plan)
        second = [c.read_wavefunctions(), c.read_charge_density()]
        for x, w in ((first, want), (second, new)):
            ctx.ev()
            for reader, got in zip(("wavefunctions", "charge"), x):
                self.same(reader, got, w, {"kind": "rerun"})
        if any((a != b).any() for a, b in zip(keep, first[0][2] + [first[1][1]])):
            raise Violation("result-changed-later", "a later read changed the arrays returned by an earlier one")
        ctx.fault("rerun")
        ctx.state("rerun", plan["spec"]["npol"], plan["spec"]["nspin"])

    def where(self, b, at):
        i, n = 0, 0
        while True:
            m = struct.unpack("=i", b[i:i + 4])[0]
            if at < i + m + 8:
                o = at - i
                p = "marker" if o < 4 else "end-marker" if o >= 4 + m else "start" if o == 4 else "inside" if (o - 4) % 8 else "number"
                return (min(n, 5), p)
            i += m + 8
            n += 1

    def same(self, reader, got, want, f):
        if reader == "wavefunctions":
            k, g, evc = got
            if len(g) != len(want["g"]) or len(evc) != len(want["evc"]) or len(k) != len(want["k"]):
                raise Violation("wrong-k-count", f"{len(g)} k points instead of {len(want['g'])}", f)
            if np.abs(np.asarray(k) - want["k"]).max() > 1e-9:
                raise Violation("wrong-k-points", f"k points {np.asarray(k).tolist()} instead of {want['k'].tolist()} ({f})", f)
            for i in range(len(g)):
                if np.shape(g[i]) != want["g"][i].shape or (np.asarray(g[i]) != want["g"][i]).any():
                    raise Violation("wrong-g-vectors", f"G vectors of k point {i} differ ({f})", f)
                if np.shape(evc[i]) != want["evc"][i].shape or (np.asarray(evc[i]) != want["evc"][i]).any():
                    raise Violation("wrong-coefficients", f"coefficients of k point {i} differ ({f})", f)
        else:
            g, rho = got
            if np.shape(g) != want["rho_g"].shape or np.abs(np.asarray(g) - want["rho_g"]).max() > 1e-9:
                raise Violation("wrong-density-g-vectors", f"G vectors of the density are {np.asarray(g)[:3].tolist()} instead of "
                                f"{want['rho_g'][:3].tolist()} ({f})", f)
            if np.shape(rho) != want["rho"].shape or (np.asarray(rho) != want["rho"]).any():
                raise Violation("wrong-density", f"density {np.asarray(rho).ravel()[:3].tolist()} instead of "
                                f"{want['rho'].ravel()[:3].tolist()} ({f})", f)

    def shrink(self, plan):
        if plan["faults"] is None:
            yield dict(plan, faults=self.faults(plan, make(plan["spec"])[0]))
            return
        for c in shrink_list(plan["faults"], 1):
            yield dict(plan, faults=c)
        s = plan["spec"]
        for k in ("nb", "npol", "nspin", "ng"):
            if s[k] > 1:
                yield dict(plan, spec=dict(s, **{k: 1}))
