"""P10: the same inputs and random seed give the same bytes in every process and after every history."""
import builtins
import hashlib
import io
import os
import random
import shutil
import sys
import weakref

import numpy as np

from . import p11
from .p11 import Shared, gen_op, run_op
from .. import campaign, dosmodels, interrupt, models, saving, zygote
from .. import fs as simfs
from ..core import HarnessError, Scenario, Violation, rng_for, shrink_list
from ..fs import SimFS
from tight_binding_redweasel import AsymTightBindingModel, BandStructureModel, Symmetry, TightBindingModel
from tight_binding_redweasel import linalg
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation

HASH_SEEDS = [1, 2, 7]


def leaves(x, label=""):
    """(label, what, bytes) of everything in a result"""
    if isinstance(x, (tuple, list)):
        out = [(label, type(x).__name__ + str(len(x)), b"")]
        for i, y in enumerate(x):
            out += leaves(y, f"{label}.{i}")
        return out
    if isinstance(x, dict):
        out = []
        for k in sorted(x):
            out += leaves(x[k], f"{label}.{k}")
        return out
    if isinstance(x, np.ndarray):
        return [(label, f"{x.dtype}{x.shape}", np.ascontiguousarray(x).tobytes())]
    if isinstance(x, (float, complex, int, np.generic)) and not isinstance(x, bool):
        return [(label, "number", np.asarray(x).tobytes())]
    if isinstance(x, bytes):
        return [(label, "bytes", x)]
    return [(label, type(x).__name__, repr(x).encode())]


def init_models(o):
    """randomised initialisation of all model classes"""
    r = models.rs(o["seed"])
    dim = 2 + o["seed"] % 2
    nb = 2 + o["seed"] // 2 % 2
    nei = np.array([[0] * dim] + [[int(i == j) for j in range(dim)] for i in range(dim)], dtype=float)
    k = r.uniform(-0.5, 0.5, (12, dim))
    k[3] = 0
    ref = np.sort(np.round(r.standard_normal((12, nb)), 2), axis=-1)
    if o["seed"] % 3 == 0:
        ref[3, 1] = ref[3, 0]
    out = []
    a = AsymTightBindingModel.init_from_ref(nei, k, ref, use_S=o["seed"] % 5 == 0)
    out.append(sorted(models.content(a).items()))
    b = BandStructureModel.init_tight_binding_from_ref(Symmetry.inv(dim), nei, k, ref, 1, 2, cos_reduced=bool(o["seed"] % 2))
    b.randomize(0.1)
    out.append(sorted(models.content(b).items()))
    a.randomize(0.2, keep_zeros=True)
    a.normalize()
    out.append(sorted(models.content(a).items()))
    u = UnitaryRepresentation(Symmetry.none(dim), nb)
    for order in (False, True):
        try:
            t = TightBindingModel.init_from_ref(u, nei, k, ref, use_repr_order=order, verbose=False)
            out.append(np.array(t.params))
        except (ValueError, AssertionError, IndexError) as e:
            out.append(type(e).__name__)
    return out + [linalg.random_hermitian(nb), linalg.random_unitary(nb)]


def automatic_fit(o, clock, root):
    spec = dict(o["camp"], clock=clock)
    data = campaign.Data(spec)
    root = os.path.join(root, "auto")
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    try:
        run = campaign.Run(spec, data, root).go()
        files = {}
        for f in sorted(os.listdir(root)):
            with open(os.path.join(root, f), "rb") as g:
                files[f] = g.read()
        res = models.content(run.result) if run.result is not None else run.raised
        return {"result": res, "files": files, "losses": [x[2] for x in run.fits], "k": [x[1] for x in run.fits]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def one(o, sh, root, clock, peers=()):
    if o["op"] == "autofit_all":
        return automatic_fit(o, clock, root)
    np.random.seed(o["seed"] % (1 << 31))
    if o["op"] == "init":
        return init_models(o)
    return run_op(o, sh, root, peers)


class Addresses:
    """id(): objects which no longer exist give their address to the next one of their kind (or never)"""

    def __init__(self, reuse):
        self.reuse, self.live, self.free, self.next, self.real = reuse, {}, {}, 1 << 12, builtins.id

    def __call__(self, x):
        real = self.real(x)
        e = self.live.get(real)
        if e is not None and e[0]() is x:
            return e[1]
        kind = type(x)
        free = self.free.setdefault(kind, [])

        def gone(_, real=real):
            e = self.live.pop(real, None)
            if e is not None and self.reuse:
                free.append(e[1])
        try:
            ref = weakref.ref(x, gone)
        except TypeError:
            return real
        if free:
            n = free.pop()
        else:
            n = self.next = self.next + 16
        self.live[real] = (ref, n)
        return n


def twin(o, rng):
    """the same computation on other data of the same form"""
    def walk(x):
        if isinstance(x, dict):
            return {k: rng.randrange(1 << 30) if k == "seed" else walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    return walk(o)


class Noise:
    """everything about a process which must not matter"""

    def __init__(self, v):
        self.v = v

    def __enter__(self):
        v = self.v
        r = random.Random(v["noise"])
        random.seed(v["noise"])
        bits = random.Random(v["noise"] + 1)
        self.urandom = random._urandom, os.urandom
        random._urandom = os.urandom = lambda n: bits.randbytes(n)
        self.id = builtins.id
        builtins.id = Addresses(v["noise"] % 4 != 0)
        self.pid = os.getpid
        pid = 1000 + r.randrange(30000)
        os.getpid = lambda: pid
        self.cpus = os.cpu_count, os.sched_getaffinity
        cpus = r.choice([1, 2, 3, 8, 64])
        os.cpu_count = lambda: cpus
        os.sched_getaffinity = lambda p: set(range(cpus))
        self.junk = [bytearray(r.randrange(8, 4000)) for _ in range(r.randrange(200))]
        if v["print"]:
            np.set_printoptions(**v["print"])
        os.environ["TZ"] = r.choice(["UTC", "Asia/Tokyo", "America/New_York"])
        os.environ["COLUMNS"] = str(r.choice([20, 80, 400]))
        self.out = sys.stdout
        sys.stdout = io.StringIO() if r.random() < 0.5 else io.TextIOWrapper(io.BytesIO(), encoding=r.choice(["ascii", "utf-8"]), errors="replace")
        np.random.seed(r.randrange(1 << 31))
        np.random.standard_normal(r.randrange(5))   # leaves half a pair of draws behind
        return self

    def __exit__(self, *a):
        random._urandom, os.urandom = self.urandom
        os.getpid = self.pid
        os.cpu_count, os.sched_getaffinity = self.cpus
        builtins.id = self.id
        sys.stdout = self.out


class Lazy:
    """the shared objects, made when one is used"""

    def __init__(self, spec):
        self._spec = spec

    def __getattr__(self, name):
        if name not in self.__dict__:
            if "_sh" not in self.__dict__:
                # the draws for these objects are not part of the computation
                state = np.random.get_state()
                self.__dict__["_sh"] = Shared(self._spec)
                np.random.set_state(state)
            return getattr(self._sh, name)


def prepare(root):
    """files which some computations read"""
    shutil.rmtree(os.path.join(root, "auto"), ignore_errors=True)
    p11.SCENARIO.files(None, root, {"cls": "asym", "seed": 3, "dim": 2, "n": 3, "nb": 2})


def history(plan, v, root):
    """other work of this process, some of it aborted"""
    hit = []
    sh = Lazy(dict(plan["spec"], seed=plan["spec"]["seed"] + 1))
    for o in v["history"]:
        prepare(root)
        kind, frac = o.get("fault"), o.get("at", 0.0)
        try:
            if kind in ("KI", "ME"):
                with interrupt.Tracer(kind, None, record=False) as t:
                    one(o, sh, root, "steady")
                n = t.n
                prepare(root)
                with interrupt.Tracer(kind, int(frac * n), record=False) as t:
                    one(o, sh, root, "steady")
            elif kind == "disk":
                f = SimFS(root)
                left = [int(frac * 12)]

                def on_op(n, k):
                    left[0] -= 1
                    if left[0] == 0:
                        raise OSError(28, "No space left on device")
                f.on_op = on_op
                with f:
                    one(o, sh, root, "steady")
            else:
                one(o, sh, root, "back")
            hit.append((o["op"], kind, False))
        except (KeyboardInterrupt, MemoryError, OSError) as e:
            e.__traceback__ = None
            hit.append((o["op"], kind, True))
        except Exception as e:
            hit.append((o["op"], type(e).__name__, False))
    return hit


def process(arg):
    """runs in a fresh process: [(label, what, digest)]"""
    plan, v = arg
    simfs.quiet_unraisable()
    root = simfs.scratch("p10" + v["cwd"])
    try:
        os.chdir(root)
        with Noise(v):
            hit = history(plan, v, root)
            sh = Lazy(plan["spec"])
            out = []
            for n, o in enumerate(plan["ops"]):
                prepare(root)
                o = dict(o)
                if o["op"] == "fit":
                    o["fit"] = dict(o["fit"], log=v["log"] if v["log"] else o["fit"]["log"])
                with campaign.Clock({"clock": v["clock"], "seed": v["noise"]}):
                    try:
                        res = ("ok", one(o, sh, root, v["clock"]))
                    except Exception as e:
                        res = ("err", type(e).__name__)
                files = {}
                if o["op"] in ("save", "s_save"):
                    for folder, _, names in sorted(os.walk(root)):
                        for f in sorted(names):
                            f = os.path.relpath(os.path.join(folder, f), root)
                            with open(f, "rb") as g:
                                files[f] = g.read()
                # the next computation continues with the same draws
                if o["op"] != "autofit_all":
                    res += (np.random.random(3),)
                out += [(f"{n}:{o['op']}{l}", w, hashlib.sha256(b).hexdigest()[:16], b[:48]) for l, w, b in leaves([res, files])]
        return out, hit
    finally:
        os.chdir("/")
        simfs.drop(root)


class SCENARIO(Scenario):
    prop = "P10"
    level = "exploration"
    rule = "distinct (computation, hash seed, clock, earlier computation, fault) tuples"
    assumptions = ["one numerical library build and one thread: results are compared bit for bit between processes of one machine"]
    stubs = "clock, OS entropy, id(), process id, terminal, disk; hash seeds by real interpreters"
    quick_runs = 140
    quick_wall = 75.0
    thorough_wall = 420.0
    min_evals = 40

    def gen_ops(self, rng, n, fits=0.2):
        ops = []
        for k in range(n):
            x = rng.random()
            if x < fits:
                s = campaign.gen_spec(rng)
                s["nsrc"] = min(s["nsrc"], 3)
                ops.append({"op": "autofit_all", "camp": s, "seed": rng.randrange(1 << 30)})
            elif x < fits + 0.1:
                ops.append({"op": "init", "seed": rng.randrange(1 << 30)})
            else:
                while True:
                    o = gen_op(rng, k, True)
                    if x < fits + 0.35 and o["op"] != "fit":
                        continue
                    if o["op"] not in ("same_path", "read_while_saved", "autofit"):
                        break
                ops.append(o)
        return ops

    def plan(self, rng, i, tier):
        spec = {"asym": saving.gen_spec(rng), "band": saving.gen_spec(rng), "tb_nb": rng.choice([2, 3]), "seed": rng.randrange(1 << 30),
                "sym": rng.randrange(4), "dos": dict(dosmodels.gen_spec(rng), N=4), "int": dict(dosmodels.gen_spec(rng, True), N=4),
                "T": rng.choice([[0], [300], [0, 300]])}
        for c in ("asym", "band"):
            while spec[c]["cls"] != c:
                spec[c] = saving.gen_spec(rng)
        ops = self.gen_ops(rng, rng.randint(1, 3))
        variants = []
        for k in range(3 if tier == "quick" else 8):
            hist = []
            for o in self.gen_ops(rng, rng.randint(0, 3), 0.06) + [dict(rng.choice([o for o in ops if o["op"] != "autofit_all"] or ops), seed=rng.randrange(1 << 30)) for _ in range(rng.randint(0, 2))]:
                if rng.random() < 0.6:
                    o["fault"] = rng.choice(["KI", "KI", "ME", "disk"])
                    o["at"] = round(rng.random(), 4)
                hist.append(o)
            for o in ops:
                if o["op"] != "autofit_all" and rng.random() < 0.35:
                    hist.append(twin(o, rng))
            rng.shuffle(hist)
            variants.append({"hash": rng.choice([0, 0, 0] + HASH_SEEDS) if k else HASH_SEEDS[i % len(HASH_SEEDS)],
                             "clock": rng.choice(["steady", "back", "jumps", "frozen"]),
                             "cwd": rng.choice(["", "_x", " long name with spaces"]), "log": rng.choice([None, "off", "on", "lines", "own"]),
                             "print": rng.choice([None, {"precision": 2}, {"suppress": True, "precision": 3}, {"threshold": 3, "edgeitems": 1},
                                                  {"floatmode": "fixed", "linewidth": 10}]),
                             "noise": rng.randrange(1 << 30), "history": hist})
        return {"spec": spec, "ops": ops, "variants": variants}

    def run(self, plan, ctx):
        base = {"hash": 0, "clock": "steady", "cwd": "", "log": None, "print": None, "noise": 1, "history": []}
        here = "sim.scen.p10"
        want, _ = zygote.fresh(here, "process", (plan, base))
        names = [o["op"] for o in plan["ops"]]
        for v in plan["variants"]:
            ctx.ev(len(names))
            if v["hash"]:
                got, hit = zygote.with_hash_seed(v["hash"], here, "process", (plan, v))
                ctx.fault("hash-seed")
            else:
                got, hit = zygote.fresh(here, "process", (plan, v))
            ctx.fault("clock-" + v["clock"])
            for op, kind, stopped in hit:
                if stopped:
                    ctx.fault("aborted-" + str(kind))
            for n in names:
                for h in hit or [(None, None, False)]:
                    ctx.state(n, v["hash"], v["clock"], h)
            ctx.trace(got, hit)
            for a, b in zip(want, got):
                if a[:3] != b[:3]:
                    raise Violation(f"differs-{a[0].split(':')[1].split('.')[0]}",
                                    f"{a[0]}: {a[1]} {a[3]!r} in a fresh process, {b[1]} {b[3]!r} in a process with hash seed {v['hash']}, clock "
                                    f"{v['clock']}, verbosity {v['log']}, number formatting {v['print']}, earlier work {hit}")
            if len(want) != len(got):
                raise Violation("differs-length", f"{len(want)} results in a fresh process, {len(got)} in {v}")
        ctx.sample({"computations": names, "variants": [(v["hash"], v["clock"], [o["op"] for o in v["history"]]) for v in plan["variants"]]})

    def shrink(self, plan):
        if len(plan["variants"]) > 1:
            for v in plan["variants"]:
                yield dict(plan, variants=[v])
        for c in shrink_list(plan["ops"], 1):
            yield dict(plan, ops=c)
        for i, v in enumerate(plan["variants"]):
            def put(**k):
                return dict(plan, variants=[dict(w, **k) if j == i else w for j, w in enumerate(plan["variants"])])
            for c in shrink_list(v["history"]):
                yield put(history=c)
            for key, simple in (("hash", 0), ("clock", "steady"), ("cwd", ""), ("log", None), ("print", None), ("noise", 1)):
                if v[key] != simple:
                    yield put(**{key: simple})
