"""A whole automatic fit under the simulator: simulated disk, clock, random draws and terminal."""
import os
import re
import sys
import time

import numpy as np
from tight_binding_redweasel import AsymTightBindingModel, Symmetry
from tight_binding_redweasel import tight_binding_asym

from . import fs as simfs
from . import models
from .core import HarnessError
from .fs import SimFS

SYMS = {"none": lambda d: Symmetry.none(d), "inv": lambda d: Symmetry.inv(d), "mirror": lambda d: Symmetry.mirror_x(False, d),
        "perm3": lambda d: Symmetry.perm3(False)}
SAVED = re.compile(r"saved (\S+?)(?: \(|$|\s)")


def gen_spec(rng):
    dim = rng.choice([1, 1, 2, 2, 3])
    nsrc = rng.randint(2, 4)
    sym = rng.choice(["none", "none", "inv", "mirror"] + (["perm3"] if dim == 3 else []))
    if sym == "mirror" and dim == 1:
        sym = "inv"
    return {"dim": dim, "nsrc": nsrc, "sym": sym, "nb": rng.choice([1, 1, 2]), "seed": rng.randrange(1 << 30),
            "start": rng.choice([0, 1, 1, 2, nsrc - 1]), "below": rng.choice([0, 0, 1, 2]), "above": rng.choice([0, 0, 0, 1, 2]),
            "randomize": rng.random() < 0.15, "restarts": rng.choice([1, 1, 2, 3]), "draw": rng.choice(["seeded"] * 5 + ["zero", "big", "same"]),
            "draw_seed": rng.randrange(1 << 30), "clock": rng.choice(["steady", "steady", "back", "jumps", "frozen"]),
            "name": rng.choice(["cu", "x_1", "a.b"]), "flat": rng.choice([None] * 5 + ["shell", "all", "tiny"])}


def source(spec):
    dim = spec["dim"]
    base = [[0] * dim] + [[1 if i == j else 0 for j in range(dim)] for i in range(dim)]
    if spec["sym"] == "perm3":
        base = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [2, 0, 0]]
    else:
        base += [[2] + [0] * (dim - 1), [1] + [1] * (dim - 1) if dim > 1 else [3], [3] + [0] * (dim - 1)]
    out = []
    for b in base:
        if b not in out:
            out.append(b)
    return np.array(out[:spec["nsrc"]], dtype=float)


class Data:
    def __init__(self, spec):
        r = models.rs(spec["seed"])
        dim, nb = spec["dim"], spec["nb"]
        self.sym = SYMS[spec["sym"]](dim)
        self.src = source(spec)
        self.all_nei = np.array(self.sym.complete_neighbors(self.src), dtype=float)
        nk = max(40, 22 * len(self.all_nei))
        k = r.random_sample((nk, dim)) - 0.5
        k[r.randint(nk)] = 0
        self.k = k
        h = r.random_sample((nb, len(self.src)))
        flat = spec.get("flat")
        if flat == "shell":  # one shell of neighbours plays no role in the data
            h[:, 1 + r.randint(len(self.src) - 1)] = 0
        elif flat in ("all", "tiny"):
            h[:, 1:] *= 0 if flat == "all" else 1e-6
        bands = []
        for b in range(nb):
            f = sum(0.4 * h[b, j] * np.mean([np.cos(2 * np.pi * (k @ s.T @ R)) for s in self.sym.S], axis=0)
                    for j, R in enumerate(self.src) if j)
            # crossing bands have kinks, no model has them
            bands.append((0.25 if spec.get("hard") else 1.6) * b + f)
        self.bands = np.sort(np.stack(bands, axis=-1), axis=-1)
        self.weights = 0.5 + r.random_sample(nb)

    def usable(self):
        """the preconditioner of the fit needs independent k-points in every step"""
        ks = self.k[np.argsort(np.linalg.norm(self.k, axis=-1))]
        for j in (1, 3, 10):
            n = (j * len(ks) + 9) // 10
            f = np.exp(2j * np.pi * ks[:n] @ self.all_nei.T)
            f[:, 0] /= 2
            w = np.linalg.eigvalsh(np.conj(f.T) @ f)
            if w[0] < 1e-9 * w[-1]:
                return False
        return True


class Draws:
    """numpy's normal draws: seeded, or extreme"""

    def __init__(self, spec):
        self.kind, self.seed = spec["draw"], spec["draw_seed"]

    def __enter__(self):
        self.state = np.random.get_state()
        self.old = np.random.standard_normal, np.random.normal, np.random.randn
        np.random.seed(self.seed % (1 << 31))
        f, kind = self.old[0], self.kind
        if kind != "seeded":
            def normal(size=None):
                x = f(size)
                if kind == "zero":
                    return x * 0
                if kind == "big":
                    return np.sign(x) * 6.0
                return x * 0 + 0.7
            np.random.standard_normal = normal
            np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * normal(size)
            np.random.randn = lambda *s: normal(s or None)
        return self

    def __exit__(self, *a):
        np.random.standard_normal, np.random.normal, np.random.randn = self.old
        np.random.set_state(self.state)
        return False


class Clock:
    def __init__(self, spec):
        self.kind, self.r = spec["clock"], models.rs(spec["seed"] + 5)
        self.t, self.jumps, self.calls = 1.7e9, 0, 0
        self.passed = 0.0       # simulated time, without the jumps

    def now(self):
        self.calls += 1
        k, before = self.kind, self.t
        if k == "steady":
            self.t += self.r.random_sample()
        elif k == "back":
            self.t -= 3600 * self.r.random_sample()
            self.jumps += 1
        elif k == "jumps":
            self.t += (self.r.random_sample() - 0.5) * 2e9
            self.jumps += 1
        if k != "jumps":
            self.passed += abs(self.t - before)
        return float(self.t)

    def __enter__(self):
        self.old = time.time, time.time_ns, time.monotonic, time.perf_counter
        time.time = time.monotonic = time.perf_counter = self.now
        time.time_ns = lambda: int(self.now() * 1e9)
        return self

    def __exit__(self, *a):
        time.time, time.time_ns, time.monotonic, time.perf_counter = self.old
        return False


class Terminal:
    """stdout of the run: each finished line together with the state of the disk journal"""

    def __init__(self, on_line):
        self.buf, self.on_line = "", on_line
        self.encoding, self.errors = "utf-8", "strict"

    def write(self, s):
        self.buf += s
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            self.on_line(line)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class Run:
    """one execution of the automatic fit"""

    def __init__(self, spec, data, root, fault=None, tracer=None):
        self.spec, self.data, self.root = spec, data, root
        self.fault, self.tracer = fault, tracer
        self.saved = []         # announcements: dict(path, at, bytes, live)
        self.fits = []          # (model, number of k-points, loss on all of them)
        self.result = self.raised = None
        self.lines = []

    def _line(self, line):
        self.lines.append(line)
        m = SAVED.search(line)
        if m is None:
            return
        path = m.group(1)
        p = os.path.join(self.root, path)
        b = None
        try:
            with simfs._REAL_OPEN(p, "rb") as f:
                b = f.read()
        except OSError:
            pass
        live = []
        for mod, n, loss in self.fits:
            if not any(mod is x for x, _, _ in live):
                live.append((mod, None, None))
        self.saved.append({"path": path, "at": len(self.fs.journal), "bytes": b,
                           "last": models.content(self.fits[-1][0]) if self.fits else None,
                           "all": [models.content(x) for x, _, _ in live] if "start" in path else [],
                           "fits": len(self.fits)})

    def go(self):
        spec, d = self.spec, self.data
        self.fs = SimFS(self.root)
        self.fs.fault = self.fault
        cls = AsymTightBindingModel
        real = cls.optimize_cg
        run = self

        def optimize_cg(self_, k_smpl, *a, **k):
            r = real(self_, k_smpl, *a, **k)
            t = run.tracer
            if t is not None:
                t.enabled, was = False, t.enabled
            try:
                loss = self_.loss(d.k, d.bands, d.weights, spec["below"])
            finally:
                if t is not None:
                    t.enabled = was
            run.fits.append((self_, len(k_smpl), float(loss)))
            return r
        cwd, out = os.getcwd(), sys.stdout
        args = (np.array(d.src), np.array(d.k), np.array(d.bands), np.array(d.weights))
        self.clock = Clock(spec)
        os.chdir(self.root)
        sys.stdout = Terminal(self._line)
        cls.optimize_cg = optimize_cg
        try:
            with Draws(spec), self.clock, self.fs:
                try:
                    if self.tracer is not None:
                        with self.tracer:
                            self.result = self.call(args)
                    else:
                        self.result = self.call(args)
                except (simfs.SimKill, KeyboardInterrupt, MemoryError, OSError) as e:
                    self.raised = type(e).__name__
                    e.__traceback__ = None
                except Exception as e:
                    if self.tracer is None or self.tracer.fired is None:
                        raise
                    self.raised = type(e).__name__
                    e.__traceback__ = None
        finally:
            cls.optimize_cg = real
            sys.stdout = out
            os.chdir(cwd)
        return self

    def call(self, args):
        s = self.spec
        return tight_binding_asym.autofit_asym(s["name"], *args, self.data.sym, start_neighbors_count=s["start"],
                                               add_bands_below=s["below"], add_bands_above=s["above"],
                                               randomize=s["randomize"], restarts=s["restarts"])
