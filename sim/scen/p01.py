"""P01: saving over a model file never loses the last good copy."""
import os

from .. import fs as simfs
from .. import models, saving
from ..core import Scenario, Violation, rng_for, shrink_list
from ..fs import Fault, SimFS, SimKill
from ..interrupt import Tracer, stratify

ERRS = ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "EMFILE"]


class SCENARIO(Scenario):
    prop = "P01"
    level = "fault_enumeration"
    rule = ("distinct (format, fault kind, file operation or code place hit, outcome old/new, torn variant) tuples; "
            "a save in which the fault did not fire does not count")
    assumptions = [
        "after a process kill all data handed to write(2) survives; after a power loss only fsynced data is certain, "
        "unsynced data may be lost, cut at a sector or zeroed, names may reach the disk before data",
        "interrupts arrive where CPython 3.12 checks for signals",
    ]
    stubs = "disk crash semantics (journal over a real scratch directory), errno injection"
    quick_runs = 200
    quick_wall = 40.0

    def plan(self, rng, i, tier):
        fmt = rng.choice(["json", "json", "python"])
        new = saving.gen_spec(rng, fmt, overlap=0.2)
        old = saving.gen_spec(rng, fmt, overlap=0.2)
        if rng.random() < 0.15:
            new["nb"], new["n"] = 4, 9 if new.get("sym") != "cubic" else 2     # more than one buffer
        if rng.random() < 0.25:
            old = dict(new, seed=rng.randrange(1 << 30))
        elif rng.random() < 0.2:
            old = dict(old, n=6 if old.get("sym") != "cubic" else 2, nb=4)
        return {"name": rng.choice(saving.NAMES) if rng.random() < 0.2 else None,
                "others": rng.sample(saving.OTHERS, 5), "fmt": fmt, "old": old, "new": new, "sub": rng.choice(["", "", "deep/er"]),
                "relative": rng.random() < 0.3, "seed": rng.randrange(1 << 30), "limit": 60 if tier == "quick" else 160,
                "faults": None}

    def faults(self, plan, d, rng):
        """choose faults: crashes at every operation, errors at every operation, interrupts"""
        ops = d["ops"]
        out = []
        for at in range(len(ops) + 1):
            out.append({"kind": "kill", "at": at, "arg": rng.choice([0.0, 0.5, 0.9])})
            for _ in range(2):
                out.append({"kind": "power", "at": at, "arg": rng.choice([0.0, 0.5, 1.0]), "draw": rng.randrange(1 << 30)})
            for e in ERRS:
                if at < len(ops) and (simfs.APPLIES[e] is None or ops[at] in simfs.APPLIES[e]):
                    out.append({"kind": e, "at": at, "arg": rng.choice([0.3, 0.8]), "sticky": rng.random() < 0.6})
                    if rng.random() < 0.4:
                        # a crash following the error
                        out.append({"kind": e, "at": at, "arg": 0.5, "sticky": rng.random() < 0.6, "after": "power",
                                    "draw": rng.randrange(1 << 30)})
        rng.shuffle(out)
        out = out[:plan["limit"] * 2 // 3]
        for at in stratify(d["KI"], rng, plan["limit"] // 3):
            f = {"kind": "KI", "at": at}
            if rng.random() < 0.3:
                f.update(after="power", draw=rng.randrange(1 << 30))
            out.append(f)
        for fmt in ("wannier90", "wannier90hr", "text", "json", "python"):
            out.append({"kind": "no-fault", "format": fmt})
        return out

    def run(self, plan, ctx):
        simfs.quiet_unraisable()
        rng = rng_for("p01", plan["seed"])
        site = saving.Site(plan)
        aux = simfs.scratch("aux")
        try:
            d = saving.dry(site)
            faults = plan["faults"] if plan["faults"] is not None else self.faults(plan, d, rng)
            for f in faults:
                if f["kind"] == "no-fault":
                    self.other_format(plan, site, f, ctx)
                else:
                    self.one(plan, site, aux, f, ctx, d)
        finally:
            site.clean()
            simfs.drop(aux)

    def other_format(self, plan, site, f, ctx):
        """a save in another format onto the same path: refused, it changes nothing; done, it is as safe as any"""
        if f["format"] == plan["fmt"]:
            return
        fault = None
        new = None
        n_ops = 0
        for at in range(1 << 20):
            if at > 3 * n_ops:
                break
            site.reset_files()
            before = site.read_state()
            m = models.make(plan["new"])
            fsx = SimFS(site.root)
            kind = None
            if at:
                kind = ("kill", "power", "ENOSPC")[(at - 1) % 3]
                fsx.fault = Fault((at - 1) // 3, kind, False, 0.5)
            raised = None
            with fsx:
                try:
                    m.save(site.target(), format=f["format"])
                except (SimKill, Exception) as e:
                    raised = type(e).__name__
                    e.__traceback__ = None
            m = None
            state = fsx.crash_state(kind, rng_for("other", plan["seed"], at)) if kind in ("kill", "power") else site.read_state()
            ctx.ev()
            if kind:
                ctx.fault(kind)
            elif raised is None:
                new, n_ops = state.get(site.rel), fsx.opnum
            for r, b in before.items():
                if r != site.rel and state.get(r) != b:
                    raise Violation("other-format-other-file", f"saving with format={f['format']!r} ({kind}, {raised}) changed {r}", f)
            got = state.get(site.rel)
            if got != before[site.rel] and (new is None or got != new):
                raise Violation(f"lost-copy-other-format-{kind or 'no-fault'}", f"saving with format={f['format']!r} over a {plan['fmt']} "
                                f"model ({kind}, {raised}) left {'no file' if got is None else f'{len(got)} bytes'} which are neither the "
                                f"old nor the new file", f)
            ctx.state("other-format", f["format"], plan["fmt"], plan["new"]["cls"], kind, raised)

    def one(self, plan, site, aux, f, ctx, d):
        site.reset_files()
        m = models.make(plan["new"])
        fsx = SimFS(site.root)
        tr = None
        raised = None
        kind = f["kind"]
        if kind != "KI":
            fsx.fault = Fault(f["at"], kind, f.get("sticky", False), f.get("arg", 0.5))
        with fsx:
            try:
                if kind == "KI":
                    with Tracer("KI", f["at"], prefixes=saving.STDLIB, exclude=saving.EXCLUDE, record=False) as tr:
                        m.save(site.target(), **site.kw)
                else:
                    m.save(site.target(), **site.kw)
            except (SimKill, KeyboardInterrupt, OSError) as e:
                raised = type(e).__name__
                e.__traceback__ = None
            m = None
        fired = (tr.fired[:2] if tr and tr.fired else None) if kind == "KI" else (fsx.fired[0][1:] if fsx.fired else None)
        at_end = kind in ("kill", "power") and not fsx.fired
        if fired is None and not at_end:
            return
        ctx.ev()
        ctx.fault(kind)
        if kind in ("kill", "power") or f.get("after"):
            mode = "kill" if kind == "kill" else "power"
            state = fsx.crash_state(mode, rng_for("crash", f.get("draw", 0)))
        else:
            state = site.read_state()
        res = site.classify(state, aux)
        ctx.state(plan["fmt"], kind, fired, res if res in ("old", "new") else "bad", f.get("after"))
        ctx.trace(f, fired, res, raised)
        ctx.probe("outcome_" + (res if res in ("old", "new") else "bad"))
        if res not in ("old", "new"):
            raise Violation(f"lost-copy-{kind}{'-then-power' if f.get('after') else ''}-{plan['fmt']}",
                            f"save of a {plan['fmt']} model over an existing one, {kind} at {fired or 'the end'}"
                            f"{' then power loss' if f.get('after') else ''}: {res}", {"fault": f, "fired": fired})
        if at_end and res != "new":
            raise Violation(f"reported-save-missing-{plan['fmt']}", f"after a completed save and then {kind} the path holds the {res} "
                            "model", f)
        if raised is None and not at_end and not f.get("after") and res != "new":
            raise Violation(f"silent-failure-{kind}-{plan['fmt']}", f"save returned normally but the path holds the {res} model", f)
        ctx.sample({"format": plan["fmt"], "fault": f, "hit": fired, "path_holds": res})

    def shrink(self, plan):
        simfs.quiet_unraisable()
        if plan["faults"] is None:
            rng = rng_for("p01", plan["seed"])
            site = saving.Site(plan)
            try:
                fl = self.faults(plan, saving.dry(site), rng)
            finally:
                site.clean()
            yield dict(plan, faults=fl)
            return
        for c in shrink_list(plan["faults"], 1):
            yield dict(plan, faults=c)
        for key in ("old", "new"):
            for k in ("n", "nb", "dim"):
                if plan[key][k] > 1:
                    yield dict(plan, **{key: dict(plan[key], **{k: 1})})
        if plan["sub"]:
            yield dict(plan, sub="")
        if plan["relative"]:
            yield dict(plan, relative=False)
        f = plan["faults"][0]
        if len(plan["faults"]) == 1:
            for at in (0, f["at"] // 2, f["at"] - 1):
                if 0 <= at < f["at"]:
                    yield dict(plan, faults=[dict(f, at=at)])
