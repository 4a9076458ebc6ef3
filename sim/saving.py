"""Shared parts of the model-file scenarios P01-P04."""
import os
import sys

import numpy as np

from . import fs as simfs
from . import models
from .core import HarnessError, Violation
from .fs import Fault, SimFS, SimKill
from .interrupt import StepBudget, Tracer, stratify

# standard library code which runs inside a save: interrupts can land there too
STDLIB = tuple(os.path.join(os.path.dirname(os.__file__), p) for p in
               ("json", "os.py", "tempfile.py", "contextlib.py", "codecs.py", "encodings", "pathlib.py", "shutil.py",
                "genericpath.py", "posixpath.py"))
# code of the interpreter which runs finalisers: interrupts in destructors are swallowed by the interpreter
EXCLUDE = ("__del__",)

# names of files of the user which may lie next to the model, or be the name of the model
OTHERS = ["{}.bak", "{}~", "{}.new", "{}.old", "{}.tmp", "{}.part", ".{}.tmp", ".{}.swp", "#{}#", "{}.lock", "{}.orig", "tmp", "{}.0",
          "{}.backup", "temp", "{}_old", "{}.json", "{}.repr"]
NAMES = ["model", "model 1.txt", "m\u00f6del.json.old", ".hidden", "x.json.json", "UPPER.JSON", "-v", "x" * 250, "\u00e9" * 120, "{}", "a%s.b"]
FORMATS = {"asym": ["json"], "band": ["json", "python"]}
EXT = {"json": ".json", "python": ".repr"}


def gen_spec(rng, fmt=None, small=True, overlap=0.0):
    cls = rng.choice(["asym", "band"]) if fmt != "python" else "band"
    dim = rng.choice([1, 2, 3, 3])
    n = rng.randint(1, 5 if small else 9)
    nb = rng.randint(1, 3)
    seed = rng.randrange(1 << 30)
    if cls == "asym":
        spec = {"cls": "asym", "seed": seed, "dim": dim, "n": n, "nb": nb, "real": rng.random() < 0.2,
                "overlap": bool(overlap) and rng.random() < overlap}
        if spec["overlap"] and rng.random() < 0.5:
            spec["sn"] = rng.choice([1, 2, n, n + 2])
        if spec["overlap"] and rng.random() < 0.2:
            spec["soft"] = rng.choice([0.3, 0.05])
        elif spec["overlap"] and rng.random() < 0.3:
            spec["faint"] = rng.choice([1e-4, 1e-6, 1e-7, 1e-8])
        return spec
    # every way a symmetric model can hold its coefficients
    sym = rng.choice(["none", "inversion", "cubic", "mirror"])
    cos, exp = rng.choice([(True, False), (False, False), (False, True), (True, True)])
    if sym in ("cubic", "mirror"):
        dim, n = {"cubic": 3, "mirror": max(dim, 2)}[sym], min(n, 2 if fmt == "python" or rng.random() < 0.8 else 4)
    return {"cls": "band", "seed": seed, "dim": dim, "n": n, "nb": nb, "sym": sym, "cos_reduced": cos, "exp": exp}


def load_kwargs(spec, fmt):
    return {}


def loaded_content(cls, path, **kw):
    m = models.load(cls, path, **kw)
    return m, models.content(m)


class Site:
    """a scratch directory holding an old model file and files of somebody else"""

    def __init__(self, plan):
        self.plan = plan
        self.fmt = plan["fmt"]
        self.cls = plan["new"]["cls"]
        self.root = simfs.scratch("save")
        self.sub = plan.get("sub", "")
        d = os.path.join(self.root, self.sub)
        os.makedirs(d, exist_ok=True)
        self.name = plan.get("name") or "model" + EXT[self.fmt]
        # a name which says nothing about the format: the caller gives it
        self.kw = {"format": self.fmt} if plan.get("name") else {}
        self.rel = os.path.join(self.sub, self.name)
        self.path = os.path.join(self.root, self.rel)
        self.others = {}
        base = self.name
        for i, o in enumerate(["other.json", "notes.txt"] + [n.format(base[:240]) for n in plan.get("others", ["{}.bak", "{}~"])]):
            if o == base:
                continue
            self.others[os.path.join(self.sub, o)] = b"belongs to the user %d\n" % i
        self.old_model = models.make(plan["old"])
        self.new_model = models.make(plan["new"])
        self.old_bytes = None
        self.reset_files()
        self.old_model.save(self.path, **self.kw)
        self.old_bytes = self.saved_bytes()
        _, self.old_content = loaded_content(plan["old"]["cls"], self.path, **self.kw)
        # the new file, written without faults
        m = models.make(plan["new"])
        m.save(self.path, **self.kw)
        self.new_bytes = self.saved_bytes()
        _, self.new_content = loaded_content(self.cls, self.path, **self.kw)
        self.reset_files()
        self.cwd = os.getcwd()

    def saved_bytes(self):
        try:
            with open(self.path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            raise Violation("plain-save-stores-nothing", f"save({self.name!r}) returned without any fault, but there is no such file",
                            {"name": self.name})

    def reset_files(self):
        simfs.write_state(self.root, {})
        os.makedirs(os.path.join(self.root, self.sub), exist_ok=True)
        for r, b in self.others.items():
            with open(os.path.join(self.root, r), "wb") as f:
                f.write(b)
        if self.old_bytes is not None:
            with open(self.path, "wb") as f:
                f.write(self.old_bytes)

    def target(self):
        """the path as the user writes it"""
        if self.plan.get("relative"):
            return os.path.relpath(self.path, os.getcwd())
        return self.path

    def read_state(self):
        st = {}
        for d, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    st[os.path.relpath(p, self.root)] = fh.read()
        return st

    def classify(self, state, aux):
        """'old' | 'new' | violation text, for the files of `state` (rel -> bytes)"""
        for r, b in self.others.items():
            if state.get(r) != b:
                return f"another file changed: {r}"
        b = state.get(self.rel)
        if b is None:
            return "the file is gone"
        if b == self.old_bytes:
            return "old"
        if b == self.new_bytes:
            return "new"
        simfs.write_state(aux, {self.name: b})
        p = os.path.join(aux, self.name)
        for what, cls, cont in (("new", self.cls, self.new_content), ("old", self.plan["old"]["cls"], self.old_content)):
            try:
                with Tracer(None, None, budget=2_000_000, record=False):
                    _, c = loaded_content(cls, p, **self.kw)
            except StepBudget:
                return f"{len(b)} bytes: loading never ends"
            except Exception as e:
                continue
            if models.content_diff(c, cont, 1e-9) is None:
                return what
        return f"{len(b)} bytes which are neither the old ({len(self.old_bytes)}) nor the new ({len(self.new_bytes)}) model"

    def clean(self):
        simfs.drop(self.root)


def dry(site, kinds=("KI",)):
    """one save without faults: number of file operations, list of interrupt places"""
    site.reset_files()
    out = {}
    m = models.make(site.plan["new"])
    with SimFS(site.root) as f:
        m.save(site.target(), **site.kw)
    out["ops"] = list(f.oplog)
    for k in kinds:
        site.reset_files()
        m = models.make(site.plan["new"])
        with SimFS(site.root) as f, Tracer(k, None, prefixes=STDLIB, exclude=EXCLUDE) as t:
            m.save(site.target(), **site.kw)
        out[k] = list(t.points)
    return out
