"""P02: a damaged or incomplete model file is never loaded as a model."""
import os
import re

import numpy as np

from .. import fs as simfs
from .. import models, saving
from ..core import Scenario, Violation, rng_for, shrink_list
from ..interrupt import StepBudget, Tracer


def num(r, style):
    x = r.standard_normal() * 10.0**r.randint(-6, 3)
    return {"hr": "%12.6f", "tb": "%15.8E"}[style] % x


def herm(r, nb):
    h = r.standard_normal((nb, nb)) + 1j * r.standard_normal((nb, nb))
    return h


def lattice_points(r, dim_n):
    pts = [tuple(int(x) for x in p) for p in models.neighbors(3, dim_n)]
    full = []
    for p in pts:
        full.append(p)
        if any(p):
            full.append(tuple(-x for x in p))
    full.sort()
    return full


def blocks(r, pts, nb):
    """hermitian consistent matrices"""
    H = {}
    for p in pts:
        q = tuple(-x for x in p)
        if q in H:
            H[p] = H[q].conj().T
        else:
            h = herm(r, nb)
            if p == q:
                h = (h + h.conj().T) / 2
            H[p] = h
    return H


def make_hr(seed, n, nb, eol=True):
    r = models.rs(seed)
    pts = lattice_points(r, n)
    H = blocks(r, pts, nb)
    out = [" written on 19Nov2026 at 12:00:00", f"{nb:12d}", f"{len(pts):12d}"]
    deg = [f"{r.randint(1, 4):5d}" for _ in pts]
    for i in range(0, len(deg), 15):
        out.append("".join(deg[i:i + 15]))
    for p in pts:
        for j in range(nb):
            for i in range(nb):
                z = H[p][i, j]
                out.append("%5d%5d%5d%5d%5d%12.6f%12.6f" % (*p, i + 1, j + 1, z.real, z.imag))
    return "\n".join(out) + ("\n" if eol else "")


def make_tb(seed, n, nb, eol=True):
    r = models.rs(seed)
    pts = lattice_points(r, n)
    H = blocks(r, pts, nb)
    out = [" written on 19Nov2026 at 12:00:00"]
    for row in np.eye(3) * 3.61 + 0.1:
        out.append("".join("%24.16E" % x for x in row))
    out += [f"{nb:12d}", f"{len(pts):12d}"]
    deg = [f"{r.randint(1, 4):5d}" for _ in pts]
    for i in range(0, len(deg), 15):
        out.append("".join(deg[i:i + 15]))
    for p in pts:
        out += ["", "%5d%5d%5d" % p]
        for j in range(nb):
            for i in range(nb):
                z = H[p][i, j]
                out.append("%5d%5d   %15.8E %15.8E" % (i + 1, j + 1, z.real, z.imag))
    for p in pts:
        out += ["", "%5d%5d%5d" % p]
        for j in range(nb):
            for i in range(nb):
                z = r.standard_normal(6)
                out.append("%5d%5d   " % (i + 1, j + 1) + " ".join("%15.8E" % x for x in z))
    return "\n".join(out) + ("\n" if eol else "")


class SCENARIO(Scenario):
    prop = "P02"
    level = "fault_enumeration"
    rule = ("distinct (format, loader, damage kind, region of the file the damage starts in, size class, outcome); "
            "an undamaged file does not count")
    assumptions = ["damage is a lost or zeroed tail (what a crash or a full disk leaves), starting at any byte",
                   "a cut inside the digits of the very last number of a text table is undetectable and out of scope"]
    stubs = "the files are produced by the library's own save or by a generator of wannier90 files"
    quick_runs = 240
    quick_wall = 45.0
    min_evals = 300

    FMTS = ["json", "python", "hr", "tb"]

    def plan(self, rng, i, tier):
        fmt = self.FMTS[i % 4]
        p = {"fmt": fmt, "seed": rng.randrange(1 << 30), "n": rng.randint(1, 4), "nb": rng.randint(1, 3),
             "loader": rng.choice(["asym", "band"]), "limit": 40 if tier == "quick" else 200, "cuts": None,
             "eol": rng.random() < 0.8}
        if fmt in ("hr", "tb"):
            p["n"] = rng.choice([1, 2, 3, 9])
        if fmt in ("json", "python"):
            p["spec"] = saving.gen_spec(rng, fmt, overlap=0.25)
            if p["spec"].get("overlap"):
                p["loader"] = "asym"
            if fmt == "python":
                p["spec"]["sym"] = rng.choice(["none", "inversion"]) if p["spec"]["sym"] != "cubic" else "cubic"
                if p["loader"] == "asym":
                    p["spec"]["sym"] = "none"
        return p

    def file(self, plan, path):
        if plan["fmt"] == "hr":
            with open(path, "w") as f:
                f.write(make_hr(plan["seed"], plan["n"], plan["nb"], plan["eol"]))
        elif plan["fmt"] == "tb":
            with open(path, "w") as f:
                f.write(make_tb(plan["seed"], plan["n"], plan["nb"], plan["eol"]))
        else:
            m = models.make(plan["spec"])
            m.save(path)

    def cuts(self, plan, b, rng):
        n = len(b)
        pos = set()
        lim = plan["limit"]
        pos.update([0, 1, n - 1, n - 2, n - 3])
        # places next to separators, line ends and section ends
        marks = [m.start() for m in re.finditer(rb"[\n,\]\} ]", b)]
        lines = [m.start() for m in re.finditer(rb"\n", b)]
        blank = [m.start() for m in re.finditer(rb"\n\s*\n", b)]
        for l in (lines, blank):
            for _ in range(lim // 3):
                if l:
                    q = rng.choice(l)
                    pos.update([q, q + 1])
        for _ in range(lim // 3):
            pos.add(rng.choice(marks or [0]) + rng.choice([0, 1]))
            pos.add(rng.randrange(n))
        pos.add((n // 512) * 512)
        if plan["fmt"] in ("json", "python"):
            # around the ends of the parts of the file
            ends = [m.end() for m in re.finditer(rb"\]\]\]?\)|\]\}|\]\],|\n", b)]
            keep = {e + x for e in (ends if len(ends) < 9 else rng.sample(ends, 5) + ends[-3:]) for x in (-1, 0, 1, 2)}
            for p in sorted(keep):
                if 0 <= p < n:
                    pos.discard(p)
        else:
            keep = ()
        pos = sorted(p for p in pos if 0 <= p < n)
        rng.shuffle(pos)
        out = [{"kind": "cut", "at": p} for p in sorted(keep) if 0 <= p < n]
        for p in pos[:lim * 3 // 2]:
            out.append({"kind": "cut", "at": p})
            if rng.random() < 0.3:
                out.append({"kind": "zero", "at": p})
            if rng.random() < 0.2 and p:
                out.append({"kind": "zeroblock", "at": p, "len": rng.choice([1, 16, 512, 4096])})
        return out

    def run(self, plan, ctx):
        rng = rng_for("p02", plan["seed"])
        d = simfs.scratch("load")
        try:
            ext = {"json": ".json", "python": ".repr", "hr": "_hr.dat", "tb": "_tb.dat"}[plan["fmt"]]
            path = os.path.join(d, "model" + ext)
            self.file(plan, path)
            with open(path, "rb") as f:
                b = f.read()
            with Tracer(None, None, record=False) as t:
                m = models.load(plan["loader"], path)
            full, sym = models.content(m), models.symmetry_of(m)
            if plan["fmt"] in ("hr", "tb"):
                self.verify_full(plan, full)
            budget = 20 * t.steps + 50000
            cuts = plan["cuts"] if plan["cuts"] is not None else self.cuts(plan, b, rng)
            for c in cuts:
                self.one(plan, path, b, full, sym, c, budget, ctx)
        finally:
            simfs.drop(d)

    def verify_full(self, plan, full):
        """an undamaged file gives exactly its numbers"""
        text = (make_hr if plan["fmt"] == "hr" else make_tb)(plan["seed"], plan["n"], plan["nb"])
        want = {}
        cur = None
        for line in text.split("\n")[3:]:
            t = line.split()
            if plan["fmt"] == "hr" and len(t) == 7:
                want.setdefault(tuple(int(x) for x in t[:3]), {})[(int(t[3]) - 1, int(t[4]) - 1)] = float(t[5]) + 1j * float(t[6])
            elif plan["fmt"] == "tb" and len(t) == 3 and "." not in line:
                cur = tuple(int(x) for x in t)
            elif plan["fmt"] == "tb" and len(t) == 4 and cur is not None:
                want.setdefault(cur, {})[(int(t[0]) - 1, int(t[1]) - 1)] = float(t[2]) + 1j * float(t[3])
        seen = set()
        for k, h in full.items():
            k = tuple(int(round(x)) for x in k)
            q = tuple(-x for x in k)
            if k not in want:
                raise Violation("wrong-content-undamaged", f"loaded neighbour {k} is not in the {plan['fmt']} file")
            seen.update([k, q])
            for (i, j), z in want[k].items():
                if abs(h[i, j] - z) > 1e-9 * max(1, abs(z)):
                    raise Violation("wrong-content-undamaged", f"H[{k}][{i},{j}] = {h[i, j]} but the file says {z}")
        if seen != set(want):
            raise Violation("wrong-content-undamaged", f"neighbours missing after load: {sorted(set(want) - seen)[:3]}")

    def one(self, plan, path, b, full, sym, c, budget, ctx):
        p = c["at"]
        if p >= len(b):
            return
        if c["kind"] == "cut":
            data = b[:p]
            last = re.search(rb"[^\s]+\s*$", b)
            if plan["fmt"] in ("hr", "tb") and last.start() < p < last.start() + len(b[last.start():].rstrip()):
                return      # digits of the very last number: out of scope
        elif c["kind"] == "zero":
            data = b[:p] + b"\0" * (len(b) - p)
            if data == b:
                return
        else:
            q = p - p % c["len"]
            data = b[:q] + b"\0" * (len(b) - q)
        with open(path, "wb") as f:
            f.write(data)
        ctx.ev()
        ctx.fault(c["kind"])
        region = self.region(plan["fmt"], b, p)
        try:
            with Tracer(None, None, budget=budget, record=False):
                m = models.load(plan["loader"], path)
            got = models.content(m)
        except StepBudget:
            raise Violation(f"load-hangs-{plan['fmt']}", f"loading a {plan['fmt']} file {c['kind']} at byte {p} of {len(b)} "
                            f"({region}) does not come back", c)
        except Exception as e:
            out = "raised"
            if isinstance(e, RecursionError):
                raise Violation(f"load-recursion-{plan['fmt']}", "loading recursed without bound", c)
        else:
            diff = models.content_diff(got, full, 0.0)
            # every announced number in place: only white space may be missing
            if diff is None and data.rstrip(b"\0 \n\r\t") != b.rstrip():
                diff = "accepted although data is missing from the file"
                if models.content_diff(got, full, 0.0) is None and plan["fmt"] in ("json", "python"):
                    diff = None
                if plan["fmt"] == "tb" and b.rstrip().startswith(data.rstrip()):
                    diff = "accepted although announced matrices are missing from the file"
            if diff is None and plan["fmt"] == "python" and models.symmetry_of(m) != sym:
                diff = "the symmetry is another one"
            if diff is not None:
                raise Violation(f"damaged-accepted-{plan['fmt']}", f"{plan['fmt']} file {c['kind']} at byte {p} of {len(b)} "
                                f"({region}) was loaded by the {plan['loader']} class: {diff}", c)
            out = "equal"
        ctx.probe(f"{plan['fmt']}_{out}")
        ctx.state(plan["fmt"], plan["loader"], c["kind"], region, plan["nb"], plan["n"], out, p * 8 // len(b))
        ctx.trace(c, out)
        ctx.sample({"format": plan["fmt"], "damage": c, "size": len(b), "outcome": out})

    @staticmethod
    def region(fmt, b, p):
        line = b[:p].count(b"\n")
        if fmt in ("hr", "tb"):
            toks = len(b[b.rfind(b"\n", 0, p) + 1:p].split())
            full = len(b[b.rfind(b"\n", 0, p) + 1:].split(b"\n")[0].split())
            return f"header{line}" if line < 6 else f"body:{toks}of{full}"
        return f"ctx:{b[max(0, p - 2):p + 1]!r}"[:24] if p < 40 else f"ctx:{b[max(0, p - 1):p + 1]!r}"

    def shrink(self, plan):
        if plan["cuts"] is None:
            rng = rng_for("p02", plan["seed"])
            d = simfs.scratch("shr")
            ext = {"json": ".json", "python": ".repr", "hr": "_hr.dat", "tb": "_tb.dat"}[plan["fmt"]]
            path = os.path.join(d, "model" + ext)
            self.file(plan, path)
            with open(path, "rb") as f:
                b = f.read()
            simfs.drop(d)
            yield dict(plan, cuts=self.cuts(plan, b, rng))
            return
        for c in shrink_list(plan["cuts"], 1):
            yield dict(plan, cuts=c)
