"""P11: concurrent use gives the same answers as sequential use."""
import os
import shutil

from .. import sched
sched.install()     # before the library creates any lock

import numpy as np
from tight_binding_redweasel import AsymTightBindingModel, BandStructureModel, HamiltonianSymmetry, Symmetry, TightBindingModel
from tight_binding_redweasel import bulk_properties, kpaths
from tight_binding_redweasel import logger as tb_logger
from tight_binding_redweasel import tight_binding_asym
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation

from .. import dosmodels, models, saving
from .. import fs as simfs
from ..core import Scenario, Violation, rng_for, shrink_list
from ..fs import ERR, SimFS
from . import p05, p12, p13

TOL = {"integral": 1e-6}
OWN = ["fit", "fit", "normalize", "save", "save", "evaluate", "edit", "dos", "integral_own", "symmetry", "path", "autofit", "wannier",
       "same_path", "read_while_saved"]
SHARED = ["s_asym", "s_band", "s_tb", "s_dos", "s_dos", "integral", "integral", "s_copy_fit", "s_save", "s_symmetry", "s_interp", "s_hsym"]

FOCUS = [("s_asym", None), ("s_band", None), ("s_tb", None), ("integral", None), ("integral", None), ("s_symmetry", None), ("s_interp", None),
         ("s_hsym", None)] + [("s_dos", q) for q in (
             None, "states_density", "states_below", "density", "volume", "dvolume", "volume_dvolume", "fss", "full_curve", "fermi_energy",
             "chemical_potential", "k_resolved_density", "seebeck", "heat_capacity", "density_bands")]
LATER = ("s_dos", "integral", "s_asym", "s_band", "s_tb", "s_symmetry", "s_interp", "s_hsym")


def arr(x):
    """what a thread keeps of its answer: copies"""
    if isinstance(x, (tuple, list)):
        return [arr(y) for y in x]
    if isinstance(x, np.ndarray):
        return np.array(x)
    return x


class Shared:
    """objects used by several threads"""

    def __init__(self, spec):
        self.spec = spec
        self.asym = models.make(spec["asym"])
        self.band = models.make(spec["band"])
        nb = spec["tb_nb"]
        nei = models.NEIGH[3][:4]
        r = models.rs(spec["seed"])
        self.hnei = np.array(Symmetry.cubic(True).complete_neighbors(nei[:2]), dtype=float)
        self.hsym = HamiltonianSymmetry(Symmetry.cubic(True))
        self.hsym.append(UnitaryRepresentation.o3(), [0, 0, 0], "p")
        self.symmetrizer = self.hsym.symmetrizer(self.hnei)
        self.tb = TightBindingModel(UnitaryRepresentation(Symmetry.none(), nb), np.array(nei), None)
        self.tb.set_from_complex(models.herm_coeffs(r, len(nei), nb))
        self.sym = [Symmetry.cubic(True), Symmetry.perm3(), Symmetry.dihedral(6, True), Symmetry.mirror3()][spec["sym"]]
        self.dos = dosmodels.make_dos(spec["dos"])
        ispec = spec["int"]
        for n in range(6):
            try:
                d = dosmodels.make_dos(dict(ispec, seed=ispec["seed"] + n))
                self.ki = bulk_properties.KIntegral(d, 0.3 + ispec["nb"] - 1, spec["T"], N=1 if spec["T"] == [0] else 3)
                break
            except (ZeroDivisionError, ValueError):
                pass
        k = np.stack(np.meshgrid(*2 * [np.linspace(-0.5, 0.5, 5, endpoint=False)], indexing="ij"), -1).reshape(-1, 2)
        self.interp = kpaths.interpolate(k, r.standard_normal((len(k), 2)), method="linear")

    def observe(self):
        k = models.kpoints(3, 4)
        out = [models.raw(self.asym), models.raw(self.band), np.array(self.tb.bands(k)), np.array(self.dos.bands),
               np.array(self.dos.k_smpl), np.array(self.sym.S), np.array(self.ki.mu), arr(self.ki.k_smpl), arr(self.ki.weights),
               self.symmetrizer(models.herm_coeffs(models.rs(4), len(self.hnei), 3))]
        return out


def run_op(o, sh, root, peers):
    """one operation of a thread; a pure function of o and the unchanged shared objects"""
    if o.get("repeat", 1) > 1:
        # the same question several times
        return [run_op(dict(o, repeat=1), sh, root, peers) for _ in range(o["repeat"])]
    op, seed = o["op"], o["seed"]
    r = models.rs(seed)
    np.random.seed(seed % (1 << 31))
    if op == "fit":
        plan = o["fit"]
        m = p05.build(plan)
        k, ref, w = p05.data(plan, m)
        log = p05.make_log(plan)
        kw = dict(plan["kw"], keep_zeros=plan["keep_zeros"], convergence_threshold=plan["threshold"], log=log)
        if plan["opt"] == "optimize":
            lg = m.optimize(k, np.ones(len(k)) / len(k), ref, w, plan["offset"], plan["iterations"], **kw)
        elif plan["spec"]["cls"] == "asym":
            lg = m.optimize_cg(k, ref, w, plan["offset"], plan["iterations"], **kw)
        else:
            lg = m.optimize_cg(k, np.ones(len(k)) / len(k), ref, w, plan["offset"], plan["iterations"], **kw)
        extra = [list(lg.iterations), list(lg.loss), [x if isinstance(x, str) else list(x) for x in lg.stream]] if isinstance(lg, tb_logger.OptimisationLogger) else []
        return [m(k), m.loss(k, ref, w, plan["offset"]), extra, list(models.content(m).values())]
    if op == "normalize":
        m = models.make(o["spec"])
        m.normalize()
        a = list(models.content(m).values())
        m.permute(np.roll(np.arange(m.band_count()), 1))
        return [a, list(models.content(m).values())]
    if op in ("save", "s_save"):
        m = models.make(o["spec"]) if op == "save" else (sh.asym if o["cls"] == "asym" else sh.band)
        p = os.path.join(f"d{o['name'][1]}", o["name"]) if o.get("rel") else os.path.join(root, o["name"])
        cls = AsymTightBindingModel if isinstance(m, AsymTightBindingModel) else BandStructureModel
        out = []
        for n in range(2):
            m.save(p)
            out.append(sorted(models.content(cls.load(p)).items()))
        with open(p, "rb") as f:
            out.append(f.read())
        return out
    if op == "same_path":
        m = models.make(o["spec"])
        p = os.path.join(root, "common.json")
        for _ in range(2):
            m.save(p)
            c = models.content(AsymTightBindingModel.load(p))
            if not any(models.content_diff(c, x, 1e-12) is None for x in peers):
                raise Violation("common-file-mixed", "a file saved by two threads holds none of the saved models")
        return []
    if op == "read_while_saved":
        p = os.path.join(root, "common.json")
        for _ in range(2):
            c = models.content(AsymTightBindingModel.load(p))
            if not any(models.content_diff(c, x, 1e-12) is None for x in peers):
                raise Violation("half-saved-read", "a file read while another thread saves holds none of the saved models")
        return []
    if op == "evaluate":
        m = models.make(o["spec"])
        k = r.uniform(-0.5, 0.5, (4, o["spec"]["dim"]))
        return evaluate(m, k)
    if op == "edit":
        m = models.make(dict(o["spec"], cls="asym", n=4) if o["spec"]["cls"] != "asym" else o["spec"])
        d = m.dim()
        m.H.add_neighbors(np.array([[3.0] + [1.0] * (d - 1)]))
        m.transform(np.eye(d) + np.diag(np.ones(d - 1), 1))
        m2 = m.copy()
        a = m2.H.limit_neighbor_count(3)
        b = m.H.cleanup_neighbors(0.3)
        s = m * 2.0
        return [a, b, list(models.content(m).values()), list(models.content(m2).values()), list(models.content(s).values())]
    if op == "dos":
        d = dosmodels.make_dos(o["dos"], check=1e-6)
        e0, e1 = d.energy_range()
        return arr([d.states_density(0.4 * e0 + 0.6 * e1), d.full_curve(N=2), d.states_below((e0 + e1) / 2)])
    if op == "integral_own":
        d = dosmodels.make_dos(o["int"])
        try:
            ki = bulk_properties.KIntegral(d, 0.35 + o["int"]["nb"] - 1, [0])
        except (ZeroDivisionError, ValueError) as e:
            return type(e).__name__
        return arr([ki.drude_factor(p12.A_REAL), ki.mu])
    if op == "symmetry":
        s = Symmetry.from_generator(Symmetry.perm3().S[1:3], True)
        n = s.complete_neighbors(models.NEIGH[3][:4])
        u = UnitaryRepresentation.o3ri()
        H = u.symmetrize(models.herm_coeffs(r, len(n), 3), np.asarray(n)) if o["x"] < 0.3 else 0
        return arr([s.S, n, s.monkhorst_pack(4) if hasattr(s, "monkhorst_pack") else 0, u.U, H])
    if op == "path":
        p = kpaths.KPath("G").to("X", N=3).to("M", N=4).to("G", N=2)
        return arr([list(p), p.names, p.x(), p.sym_x(), str(p)])
    if op == "autofit":
        nei = np.array([[0.0], [1.0], [2.0]])
        k = np.linspace(-0.5, 0.5, 41)[:, None]
        b = (np.cos(2 * np.pi * k) * (1 + o["x"]) + 0.2 * np.cos(4 * np.pi * k))
        m = tight_binding_asym.autofit_asym(o["name"].replace(".json", "").replace(".repr", ""), nei, k, b, np.ones(1), Symmetry.none(1),
                                            start_neighbors_count=1, randomize=False, restarts=1)
        return [list(models.content(m).values())]
    if op == "wannier":
        m = AsymTightBindingModel.load(os.path.join(root, "w_hr.dat"))
        return [list(models.content(m).values())]
    # shared objects, only read
    if op == "s_asym":
        return evaluate(sh.asym, r.uniform(-0.5, 0.5, (3, models.dim_of(sh.asym))))
    if op == "s_band":
        return evaluate(sh.band, r.uniform(-0.5, 0.5, (3, models.dim_of(sh.band)))) + [np.array(sh.band.params_complex())]
    if op == "s_tb":
        k = r.uniform(-0.5, 0.5, (3, 3))
        return arr([sh.tb.bands(k), sh.tb.bands_grad(k), sh.tb.f(k), sh.tb.df(k)])
    if op == "s_dos":
        k, v = p13.SCENARIO().outcome(sh.dos, o["query"])
        return [k, arr(v)]
    if op == "integral":
        return arr(p12.ask(sh.ki, o["ask"]))
    if op == "s_copy_fit":
        m = (sh.asym if o["cls"] == "asym" else sh.band).copy()
        k = r.uniform(-0.5, 0.5, (12, models.dim_of(m)))
        k[0] = 0
        ref = m(k) * 0.9
        if o["cls"] == "asym":
            m.optimize_cg(k, ref, 1.0, 0, 2, log=False)
        else:
            m.optimize_cg(k, np.ones(len(k)), ref, 1.0, 0, 2, log=False)
        return [m(k), list(models.content(m).values())]
    if op == "s_symmetry":
        v = r.uniform(-0.5, 0.5, (3, sh.sym.dim()))
        return arr([sh.sym.complete_neighbors(np.round(v * 4)[:1]), sh.sym.check(), sh.sym.realize_symmetric(v[:2]),
                    sh.sym.r_class_size(np.round(v * 3))])
    if op == "s_interp":
        return arr(sh.interp(r.uniform(-1, 1, (5, 2))))
    if op == "s_hsym":
        H = models.herm_coeffs(r, len(sh.hnei), 3)
        return arr([sh.symmetrizer(H.copy()), sh.hsym.symmetrize(H.copy(), sh.hnei)])
    raise ValueError(op)


def evaluate(m, k):
    out = [m(k), m.f(k) if hasattr(m, "f") else 0, m.bands_grad(k)]
    if not (isinstance(m, AsymTightBindingModel) and m.band_count() == 1):
        out.append(m.bands_grad_hess(k))
    ref = np.array(out[0]) + 0.1
    out += [m.loss(k, ref, 1.0, 0), m.error(k, ref, 1.0, 0)]
    return arr(out)


def gen_op(rng, i, dim3):
    shared = rng.random() < 0.6
    o = {"op": rng.choice(SHARED if shared else OWN), "seed": rng.randrange(1 << 30), "cls": rng.choice(["asym", "band"]),
         "x": round(rng.random(), 3)}
    if o["op"] == "fit":
        p = p05.gen(rng)
        p["log"] = rng.choice(["off", "on", "own", "lines"])
        p["iterations"] = min(p["iterations"], 2)
        if p["spec"].get("sym") == "oh":
            p["spec"].update(sym="none", dim=2, nb=2)
            p["nref"], p["offset"] = 1, rng.randint(0, 1)
        o["fit"] = p
    if o["op"] in ("normalize", "save", "evaluate", "edit", "same_path"):
        fmt = rng.choice(["json", "python"]) if o["op"] == "save" else "json"
        o["spec"] = saving.gen_spec(rng, fmt)
        if o["op"] == "same_path" or o["op"] == "edit":
            while o["spec"]["cls"] != "asym":
                o["spec"] = saving.gen_spec(rng, fmt)
        o["name"] = f"m{i}" + saving.EXT[fmt]
        o["rel"] = rng.random() < 0.5
    else:
        o["name"] = f"m{i}.json"
    if o["op"] == "dos":
        o["dos"] = dict(dosmodels.gen_spec(rng), N=4)
    if o["op"] == "integral_own":
        o["int"] = dict(dosmodels.gen_spec(rng, True), N=4)
    if o["op"] == "s_dos":
        o["query"] = p13.gen_query(rng)
    if o["op"] == "integral":
        o["ask"] = rng.choice(p12.QUERIES)
    return o


class SCENARIO(Scenario):
    prop = "P11"
    level = "exploration"
    rule = "distinct (code place a thread was switched out at, operations of both threads) tuples"
    assumptions = ["threads are switched where CPython 3.12 may switch them: at the start of library functions, after calls into C, at "
                   "the end of loop bodies, at file operations and at locks; calls into numpy are atomic",
                   "numpy's global random stream is private to each thread (its draws are an input, not a result)"]
    stubs = "thread scheduler (baton), locks, numpy's global random stream, disk"
    watched = False
    quick_runs = 360
    quick_wall = 75.0
    min_evals = 40

    def plan(self, rng, i, tier):
        spec = {"asym": saving.gen_spec(rng), "band": saving.gen_spec(rng), "tb_nb": rng.choice([2, 3]), "seed": rng.randrange(1 << 30),
                "sym": rng.randrange(4), "dos": dict(dosmodels.gen_spec(rng), N=4), "int": dict(dosmodels.gen_spec(rng, True), N=4),
                "T": rng.choice([[0], [300], [0, 300]])}
        for c in ("asym", "band"):
            while spec[c]["cls"] != c:
                spec[c] = saving.gen_spec(rng)
        threads = []
        same = rng.random() < 0.5
        for t in range(rng.choice([2, 2, 2, 3, 4])):
            ops = []
            for k in range(rng.randint(1, 2)):
                o = gen_op(rng, 10 * t + k, True)
                if same and t > 0 and k < len(threads[0]):
                    # the same kind of work in all threads
                    src = threads[0][k]
                    for _ in range(200):
                        if o["op"] == src["op"]:
                            break
                        o = gen_op(rng, 10 * t + k, True)
                ops.append(o)
            threads.append(ops)
        if rng.random() < 0.6:
            # few different questions about one shared object, asked again and again; one kind of question after the other
            kind, q = FOCUS[(i * 5 + rng.randrange(2)) % len(FOCUS)]
            pool = []
            while len(pool) < 3:
                o = gen_op(rng, 0, True)
                if o["op"] == kind:
                    pool.append(o)
            if q:
                cold = rng.random() < 0.5
                for n, o in enumerate(pool):
                    o["query"].update({"q": q}, **({"T": 0} if cold and n else {}))
            threads = [[dict(rng.choice(pool), repeat=rng.choice([1, 1, 2, 3])) for _ in range(rng.randint(1, 3))] for _ in threads]
        return {"spec": spec, "threads": threads, "seed": rng.randrange(1 << 30), "schedules": 4 if tier == "quick" else 24, "list": None}

    def common(self, plan):
        """models which threads save to one common path"""
        base = {"cls": "asym", "seed": plan["seed"], "dim": 2, "n": 3, "nb": 2}
        specs = [base] + [o["spec"] for t in plan["threads"] for o in t if o["op"] == "same_path"]
        return base, [models.content(models.make(s)) for s in specs]

    def files(self, root, base):
        for f in os.listdir(root):
            f = os.path.join(root, f)
            if os.path.isdir(f):
                shutil.rmtree(f)
            else:
                os.remove(f)
        for i in range(10):
            os.mkdir(os.path.join(root, f"d{i}"))
        models.make(base).save(os.path.join(root, "common.json"))
        r = models.rs(5)
        with open(os.path.join(root, "w_hr.dat"), "w") as f:
            f.write(" created\n 2\n 3\n 1 1 1\n")
            for x in (-1, 0, 1):
                for j in range(2):
                    for i in range(2):
                        f.write(f" {x} 0 0 {i + 1} {j + 1} {r.standard_normal():.6f} {0.0:.6f}\n")

    def run(self, plan, ctx):
        simfs.quiet_unraisable()
        root = simfs.scratch("threads")
        cwd = os.getcwd()
        rng = rng_for("p11", plan["seed"])
        base, peers = self.common(plan)
        os.chdir(root)
        opts = np.get_printoptions()
        try:
            pristine = Shared(plan["spec"])
            if not SCENARIO.watched:
                SCENARIO.watched = True
                sched.watch()
            shared_before = pristine.observe()
            want, total, paths = [], 0, []
            stdlib = any(o["op"] in ("save", "s_save", "same_path") for t in plan["threads"] for o in t) and \
                plan["seed"] % 2 == 1
            self.stdlib = stdlib
            for t in plan["threads"]:
                w = []
                paths.append([])
                for o in t:
                    self.files(root, base)
                    res = []

                    def alone(o=o):
                        res.append(self.outcome(o, dosmodels.deep(pristine, ()), root, peers))
                    s = sched.Scheduler([sched.Task(alone)], stdlib=stdlib, record=paths[-1]).run()
                    if s.tasks[0].error is not None:
                        raise s.tasks[0].error
                    if s.deadlock:
                        raise Violation("deadlock-alone", f"{o['op']} alone waits for a lock for ever")
                    total += s.n
                    w.append(res[0])
                want.append(w)
            if plan["list"] is not None:
                todo = plan["list"]
            else:
                todo = []
                for _ in range(int(min(16, max(1, 12000 / (total + 1))) * plan["schedules"])):
                    f = None
                    if rng.random() < 0.25:
                        f = {"thread": rng.randrange(len(plan["threads"])), "kind": rng.choice(["ME", "disk"]), "at": rng.randrange(max(1, total))
                             if rng.random() < 0.5 else rng.randrange(200)}
                    todo.append({"decisions": sched.gen_schedule(rng, total, len(plan["threads"]), paths), "start": rng.randrange(4), "fault": f})
            for sc in todo:
                self.concurrent(plan, sc, pristine, want, root, base, peers, ctx, shared_before)
                if dict(np.get_printoptions()) != dict(opts):
                    raise Violation("printoptions", "the number formatting of the process changed")
                if os.path.realpath(os.getcwd()) != os.path.realpath(root):
                    raise Violation("cwd", "the working directory of the process changed")
            ctx.sample({"threads": [[o["op"] for o in t] for t in plan["threads"]], "places": total})
        finally:
            os.chdir(cwd)
            simfs.drop(root)

    def outcome(self, o, sh, root, peers):
        try:
            return ("ok", run_op(o, sh, root, peers))
        except (Violation, MemoryError, OSError):
            raise
        except Exception as e:
            return ("err", type(e).__name__)

    def concurrent(self, plan, sc, pristine, want, root, base, peers, ctx, shared_before):
        self.files(root, base)
        sh = dosmodels.deep(pristine, ())
        results = [[] for _ in plan["threads"]]
        tasks = []
        fault = sc["fault"]
        disk = {"n": 0, "fired": None}

        def work(i, ops):
            def fn():
                for o in ops:
                    try:
                        results[i].append(self.outcome(o, sh, root, peers))
                    except MemoryError as e:
                        e.__traceback__ = None
                        results[i].append(("fault", "MemoryError"))
                    except OSError as e:
                        if disk["fired"] is None or i != fault["thread"]:
                            raise
                        e.__traceback__ = None
                        results[i].append(("fault", "OSError"))
            return fn
        for i, ops in enumerate(plan["threads"]):
            tasks.append(sched.Task(work(i, ops), fail_at=fault["at"] if fault and fault["kind"] == "ME" and fault["thread"] == i else None))
        s = sched.Scheduler(tasks, sc["decisions"], start=sc["start"], stdlib=self.stdlib)
        fs = SimFS(root)

        def on_op(n, kind):
            me = s.me()
            if me is None:
                return
            if fault and fault["kind"] == "disk" and me == fault["thread"] and kind in ("open", "write", "fsync", "rename"):
                disk["n"] += 1
                if disk["n"] == fault["at"] % 9 + 1:
                    disk["fired"] = kind
                    raise OSError(ERR["ENOSPC"], os.strerror(ERR["ENOSPC"]))
            s.point(me, ("file", kind))
        fs.on_op = on_op
        ctx.ev()
        with fs:
            s.run()
        for i, t in enumerate(tasks):
            if t.failed is not None:
                ctx.fault("allocation")
        if disk["fired"]:
            ctx.fault("disk-full")
        ctx.fault("switch", len(s.switches))
        names = [[o["op"] for o in t] for t in plan["threads"]]
        for n, a, b, where in s.switches[:400]:
            if a is not None:
                ka, kb = min(len(results[a]), len(names[a]) - 1), min(len(results[b]), len(names[b]) - 1)
                ctx.state(where, names[a][ka], names[b][kb])
        ctx.trace(s.n, len(s.switches), [(n, a, b) for n, a, b, _ in s.switches[:50]])
        what = f"threads {names}"
        if s.deadlock:
            raise Violation("deadlock", f"{what}: threads {s.deadlock} wait for each other for ever")
        for t in tasks:
            if isinstance(t.error, Violation):
                raise t.error
            if t.error is not None:
                raise Violation(f"thread-error-{type(t.error).__name__}", f"{what}: {type(t.error).__name__}: {t.error}")
        for i, ops in enumerate(plan["threads"]):
            for k, o in enumerate(ops):
                if k >= len(results[i]):
                    raise Violation("unfinished", f"{what}: {o['op']} of thread {i} didn't finish")
                got, w = results[i][k], want[i][k]
                ctx.ev()
                if got[0] == "fault" and fault and fault["thread"] == i:
                    continue
                if got[0] != "ok" and tasks[i].failed is not None and fault["thread"] == i:
                    continue    # the failing allocation came out as another error
                if got[0] != w[0]:
                    raise Violation(f"outcome-differs-{o['op']}", f"{what}: {o['op']} gives {got[:2] if got[0] != 'ok' else 'a result'}, alone "
                                                                 f"{w if w[0] != 'ok' else 'a result'}")
                if tasks[i].failed is not None and fault["thread"] == i and o["op"] == "autofit":
                    continue
                d = dosmodels.same(got[1], w[1], TOL.get(o["op"], 0.0))
                if d:
                    raise Violation(f"result-differs-{o['op']}", f"{what}: {o['op']} of thread {i}: {d} compared to the thread alone")
        # the shared objects are as before, and still answer
        ctx.ev()
        for x, y in zip(sh.observe(), shared_before):
            d = dosmodels.same(x, y, 0.0)
            if d:
                raise Violation("shared-changed", f"{what}: a shared object changed: {d}")
        for i, ops in enumerate(plan["threads"]):
            for k, o in enumerate(ops):
                if o["op"] in LATER and want[i][k][0] == "ok":
                    got = self.outcome(o, sh, root, peers)
                    d = got[0] != "ok" or dosmodels.same(got[1], want[i][k][1], TOL.get(o["op"], 0.0))
                    if d:
                        raise Violation(f"later-answer-{o['op']}", f"{what}: {o['op']} asked later: {d}")
        # no file of an unfinished save is left
        left = sorted(f for d, _, fs in os.walk(root) for f in fs)
        ok = {"common.json", "w_hr.dat"} | {o["name"] for t in plan["threads"] for o in t}
        extra = [f for f in left if f not in ok and not f.startswith("asym_")]
        if extra and not (fault and (disk["fired"] or any(t.failed for t in tasks))):
            raise Violation("left-over-files", f"{what}: {extra} left behind")

    def shrink(self, plan):
        if plan["list"] is None:
            rng = rng_for("p11", plan["seed"])
            # find the schedule which fails by running with each of them: the list is made by run()
            box = []

            class Stop(Exception):
                pass
            me = self

            def grab(plan_, sc, *a):
                box.append(sc)
            old = self.concurrent
            try:
                me.concurrent = grab
                from ..core import Ctx
                me.run(plan, Ctx())
            finally:
                me.concurrent = old
            for sc in box:
                yield dict(plan, list=[sc])
            return
        sc = plan["list"][0]
        if sc["fault"]:
            yield dict(plan, list=[dict(sc, fault=None)])
        d = sc["decisions"]
        size = max(1, len(d) // 2)
        while size >= 1:
            for a in range(0, len(d), size):
                yield dict(plan, list=[dict(sc, decisions=d[:a] + d[a + size:])])
            if size == 1 or len(d) // size > 64:
                break
            size //= 2
        th = plan["threads"]
        if len(th) > 2:
            for i in range(len(th)):
                yield dict(plan, threads=th[:i] + th[i + 1:])
        for i, ops in enumerate(th):
            if len(ops) > 1:
                for k in range(len(ops)):
                    yield dict(plan, threads=th[:i] + [ops[:k] + ops[k + 1:]] + th[i + 1:])
