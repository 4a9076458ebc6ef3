"""P03: a failed save changes nothing in the running process."""
import os

import numpy as np

from .. import fs as simfs
from .. import models, saving
from ..core import Scenario, Violation, rng_for, shrink_list
from ..fs import Fault, SimFS, SimKill
from ..interrupt import Tracer, stratify

ERRS = ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "EMFILE"]

PRINTOPTS = [
    {},
    {"precision": 3, "suppress": True},
    {"precision": 17, "threshold": 5, "edgeitems": 1},
    {"linewidth": 30, "sign": "+"},
    {"floatmode": "fixed", "precision": 2, "nanstr": "NOPE", "infstr": "INF"},
    {"legacy": "1.13"},
]


def open_handles():
    return len(os.listdir("/proc/self/fd"))


def get_opts():
    o = dict(np.get_printoptions())
    return {k: (repr(v) if callable(v) or isinstance(v, dict) else v) for k, v in o.items()}


class SCENARIO(Scenario):
    prop = "P03"
    level = "fault_enumeration"
    rule = "distinct (format, way of failing, operation or code place hit, raised or not, number formatting in force)"
    assumptions = ["interrupts arrive where CPython 3.12 checks for signals; an allocation failure precedes any effect "
                   "of the failing instruction"]
    stubs = "errno injection at the file-operation seam, interrupts and allocation failures at instruction granularity"
    quick_runs = 200
    quick_wall = 40.0

    def plan(self, rng, i, tier):
        fmt = rng.choice(["json", "json", "python"])
        new = dict(saving.gen_spec(rng, fmt, overlap=0.2), tiny=rng.random() < 0.4)
        return {"fmt": fmt, "old": saving.gen_spec(rng, fmt, overlap=0.2), "new": new, "sub": "",
                "relative": rng.random() < 0.2, "seed": rng.randrange(1 << 30), "opts": rng.randrange(len(PRINTOPTS)),
                "limit": 60 if tier == "quick" else 160, "faults": None}

    def faults(self, plan, d, rng):
        ops = d["ops"]
        out = []
        for at in range(len(ops)):
            for e in ERRS:
                if ops[at] in simfs.APPLIES[e]:
                    out.append({"kind": e, "at": at, "arg": rng.choice([0.0, 0.5]), "sticky": rng.random() < 0.5})
        rng.shuffle(out)
        lim = plan["limit"]
        out = out[:lim // 3]
        for k in ("KI", "ME"):
            out += [{"kind": k, "at": at} for at in stratify(d[k], rng, lim // 3)]
        for how in ("wannier90", "unknown-format", "unknown-extension", "missing-directory", "is-directory", "no-neighbors",
                    "no-symmetry", "none"):
            out.append({"kind": "refuse", "how": how})
        return out

    def run(self, plan, ctx):
        simfs.quiet_unraisable()
        rng = rng_for("p03", plan["seed"])
        site = saving.Site(plan)
        saved = np.get_printoptions()
        try:
            d = saving.dry(site, ("KI", "ME"))
            faults = plan["faults"] if plan["faults"] is not None else self.faults(plan, d, rng)
            for f in faults:
                np.set_printoptions(**saved)
                np.set_printoptions(**PRINTOPTS[plan["opts"]])
                self.one(plan, site, f, ctx)
        finally:
            np.set_printoptions(**saved)
            site.clean()

    def one(self, plan, site, f, ctx):
        site.reset_files()
        m = models.make(plan["new"])
        kind = f["kind"]
        path, kw = site.target(), {}
        m_save = m
        if kind == "refuse":
            how = f["how"]
            if how == "wannier90":
                if plan["new"]["cls"] != "band":
                    return
                kw = {"format": "wannier90"}
            elif how == "unknown-format":
                kw = {"format": "yaml"}
            elif how == "unknown-extension":
                path = path + ".xyz"
            elif how == "missing-directory":
                path = os.path.join(os.path.dirname(path), "nowhere", os.path.basename(path))
            elif how == "is-directory":
                path = os.path.join(site.root, "dir" + saving.EXT[plan["fmt"]])
                os.makedirs(path)
            elif how == "no-neighbors":
                if plan["new"]["cls"] != "band":
                    return
                m_save = m.copy()
                m_save.neighbors = None
            elif how == "no-symmetry":
                if plan["new"]["cls"] != "band" or plan["fmt"] != "python":
                    return
                m_save = m.copy()
                m_save.sym = None
        before = models.raw(m)
        before_s = models.raw(m_save)
        opts = get_opts()
        fsx = SimFS(site.root)
        if kind not in ("KI", "ME", "refuse"):
            fsx.fault = Fault(f["at"], kind, f.get("sticky", False), f.get("arg", 0.5))
        tr = None
        raised = None
        files = set(site.read_state())
        handles = open_handles()
        with fsx:
            try:
                if kind in ("KI", "ME"):
                    with Tracer(kind, f["at"], prefixes=saving.STDLIB, exclude=saving.EXCLUDE, record=False) as tr:
                        m_save.save(path, **kw)
                else:
                    m_save.save(path, **kw)
            except (KeyboardInterrupt, MemoryError, OSError, ValueError, NotImplementedError, AssertionError, TypeError,
                    AttributeError) as e:
                raised = type(e).__name__
                e.__traceback__ = None
        if kind in ("KI", "ME"):
            fired = tr.fired[:2] if tr.fired else None
        elif kind == "refuse":
            fired = f["how"]
        else:
            fired = fsx.fired[0][1:] if fsx.fired else None
        if fired is None:
            return
        ctx.ev()
        ctx.fault(kind if kind != "refuse" else "refuse-" + f["how"])
        ctx.state(plan["fmt"], kind, fired, raised, plan["opts"])
        ctx.trace(f, fired, raised)
        ctx.probe("raised" if raised else "returned")
        tag = f"{kind if kind != 'refuse' else f['how']}"
        if get_opts() != opts:
            now = get_opts()
            ch = {k: (opts.get(k), now.get(k)) for k in set(opts) | set(now) if opts.get(k) != now.get(k)}
            raise Violation(f"number-formatting-changed-{tag}", f"save ({plan['fmt']}) with {kind} at {fired} "
                            f"({'raised ' + raised if raised else 'returned'}) left numpy print options changed: {ch}", f)
        if models.raw(m) != before or models.raw(m_save) != before_s:
            raise Violation(f"model-changed-{tag}", f"save with {kind} at {fired} changed the model in memory", f)
        if kind == "refuse" and f["how"] != "none":
            if raised is None:
                ok = False
                if f["how"] == "wannier90":
                    # a later implementation of that format may succeed, then the file must exist
                    ok = os.path.exists(path) and os.path.getsize(path) > 0
                if f["how"] == "no-symmetry":
                    ok = True       # only says that saving without symmetry became possible
                if f["how"] == "missing-directory":
                    ok = os.path.isfile(path)
                if not ok:
                    raise Violation(f"silent-failure-{tag}", f"save returned normally although it cannot have worked: {f['how']}", f)
        elif kind == "KI" and raised != "KeyboardInterrupt":
            raise Violation("interrupt-swallowed", f"KeyboardInterrupt at {fired} during save did not reach the caller "
                            f"(got {raised})", f)
        elif kind == "ME" and raised is None or (kind not in ("KI", "ME", "refuse") and raised is None):
            # the code may have coped with the fault: then the file must be the new model
            st = site.read_state().get(site.rel)
            if st != site.new_bytes and site.classify(site.read_state(), simfs.scratch("aux")) != "new":
                raise Violation(f"silent-failure-{tag}", f"save returned normally although {kind} hit {fired}; "
                                "the file is not the new model", f)
        elif kind == "refuse" and raised is not None:
            raise Violation("plain-save-fails", f"a save without any fault raised {raised}", f)
        if kind not in ("KI", "ME"):
            # an error (or nothing) happened: nothing lies around, on the disk and in the process
            left = set(site.read_state()) - files - {site.rel}
            if left and raised is not None and not (f.get("sticky") and "unlink" in simfs.APPLIES[kind]):
                raise Violation(f"part-left-behind-{tag}", f"the save that failed with {raised} ({kind} at {fired}) left {sorted(left)} "
                                "in the folder", f)
            if not (f.get("sticky") and "close" in simfs.APPLIES.get(kind, ())) and open_handles() > handles:
                raise Violation(f"open-file-left-{tag}", f"after a save ({'raised ' + raised if raised else 'returned'}, {kind} at {fired}) "
                                f"the process holds {open_handles()} open files instead of {handles}", f)
        # the fault is gone: a retry must work
        try:
            m.save(site.target())
        except Exception as e:
            raise Violation(f"retry-fails-{tag}", f"after {kind} at {fired} a second save raised {type(e).__name__}: {e}", f)
        if get_opts() != opts:
            raise Violation(f"number-formatting-changed-after-retry-{tag}", "print options changed by the retried save", f)
        with open(site.path, "rb") as fh:
            b = fh.read()
        if b != site.new_bytes:
            _, c = saving.loaded_content(site.cls, site.path)
            diff = models.content_diff(c, site.new_content, 1e-9)
            if diff:
                raise Violation(f"retry-wrong-{tag}", f"after {kind} at {fired} the retried save stored another model: {diff}", f)
        ctx.sample({"format": plan["fmt"], "fault": f, "hit": fired, "raised": raised})

    def shrink(self, plan):
        simfs.quiet_unraisable()
        if plan["faults"] is None:
            rng = rng_for("p03", plan["seed"])
            site = saving.Site(plan)
            try:
                fl = self.faults(plan, saving.dry(site, ("KI", "ME")), rng)
            finally:
                site.clean()
            yield dict(plan, faults=fl)
            return
        for c in shrink_list(plan["faults"], 1):
            yield dict(plan, faults=c)
        for key in ("old", "new"):
            for k in ("n", "nb", "dim"):
                if plan[key][k] > 1:
                    yield dict(plan, **{key: dict(plan[key], **{k: 1})})
        if plan["opts"]:
            yield dict(plan, opts=0)
