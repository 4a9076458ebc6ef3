"""P19: interrupted downloads never pose as pseudopotentials; names never run."""
import hashlib
import os
import re

import numpy as np

from .. import fs as simfs
from .. import interrupt, procs, qe
from ..core import Scenario, Violation, rng_for, shrink_list
from ..fs import Fault, SimFS, SimKill
from tight_binding_redweasel import qespresso_interface as lib

FETCHERS = {"wget", "curl", "(urlopen)"}
MOVERS = {"mv", "rm", "cp", "test", "[", "true", ":", "cd"}
BAD = ["Cu.UPF; touch PWNED", "$(touch PWNED)", "`touch PWNED`.UPF", "a b.UPF", "Cu.UPF|touch PWNED", "x&&touch PWNED",
       "-O../PWNED", "--output-document=PWNED", "-iPWNED", "../../etc/PWNED", "sub/PWNED.UPF", "Cu.UPF\ntouch PWNED",
       "Cu.pbesol.UPF\n", "Cu.UPF >PWNED", "Cu'.UPF", 'Cu".UPF', "Cu\\.UPF", "Cu*.UPF", "Cu?.UPF", "~root", "Cu.UPF&", ">PWNED",
       "Cu.UPF\ttouch", "${HOME}", "$HOME.UPF", "Cu.UPF#PWNED", "Cu(1).UPF", "Cu<x", " Cu.UPF", "Cu.UPF ", "..", "!x",
       "C.UPF;touch PWNED", "1.UPF\ttouch PWNED", "_|touch PWNED", "\nCu.UPF", "Cu.UPF\r\n"]


def content(name):
    h = int(hashlib.sha256(name.encode()).hexdigest()[:8], 16)
    return qe.pseudo_bytes(re.split(r"[._]", name)[0], 20.0 + h % 70, float(1 + h % 19), seed=h % 100000, pad=h % 5)


class SCENARIO(Scenario):
    prop = "P19"
    level = "fault_enumeration"
    rule = "distinct (way of asking, outcomes of the transfers, interruption and step it came at, files there before, names skipped)"
    stubs = "wget and other programs, the command interpreter and the network (simulated, in numbered steps)"
    assumptions = ["the server announces the size of a file, so that the download program notices a transfer that was cut",
                   "one preparation runs at a time in a directory (a killed one may leave its download program running)"]
    quick_runs = 8000
    quick_wall = 60.0

    def plan(self, rng, i, tier):
        els = rng.sample(qe.ELEMENTS, rng.randint(2, 7))
        pool = {t: [qe.pp_name(rng, t) for _ in range(2)] for t in els}
        missing = [n for t in els for n in pool[t] if rng.random() < 0.1]
        ops = []
        for _ in range(rng.randint(1, 5 if tier == "quick" else 12)):
            names = {}
            for t in rng.sample(els, rng.randint(1, min(4, len(els)))):
                names[t] = rng.choice(pool[t]) if rng.random() < 0.85 else None
            u = rng.random()
            how = "dict" if u < 0.6 else "again" if u < 0.75 else "xml"
            if rng.random() < 0.35:
                for _ in range(rng.randint(1, 3)):
                    names[f"X{rng.randrange(90)}"] = rng.choice(BAD)
            items = list(names.items())
            rng.shuffle(items)
            if how == "xml":
                items = [[t, n] for t, n in items if n is not None and not any(c in n for c in "\n\r\t") and n.strip() == n]
                if not items:
                    how, items = "again", []
            net = [rng.choice(["ok"] * 5 + ["refuse", "cut", "cut", "full"]) for _ in range(5)]
            o = {"how": how, "names": [list(x) for x in items], "net": net, "seed": rng.randrange(1 << 30), "fault": None,
                 "nowget": rng.random() < 0.04}
            if rng.random() < 0.2:
                o["net"] = ["ok"]
            u = rng.random()
            if u < 0.35:
                o["fault"] = {"kind": rng.choice(["die", "kill", "kill", "KI", "KI"]), "at": rng.randrange(0, rng.choice([6, 14, 30])),
                              "orphan": rng.random() < 0.4}
            elif u < 0.5:
                o["fault"] = {"kind": rng.choice(["fskill", "fskill", "fsEIO", "fsEACCES"]), "at": rng.randrange(0, 14)}
            elif u < 0.62:
                o["fault"] = {"kind": "lineKI", "u": rng.random()}
            ops.append(o)
        # then everything works
        if rng.random() < 0.7:
            ops.append({"how": rng.choice(["dict", "again"]), "names": [list(x) for x in {t: rng.choice(pool[t]) for t in els}.items()],
                        "net": ["ok"], "seed": rng.randrange(1 << 30), "fault": None, "nowget": False})
        decoys = {}
        if rng.random() < 0.3:
            # other files of the user, with names which are almost the same
            for _ in range(rng.randint(1, 3)):
                n = rng.choice(pool[rng.choice(els)])
                how = rng.choice(["lower", "upper", "bak", "head", "copy", "dir", "sub"])
                decoys[{"lower": n.lower(), "upper": n.upper(), "bak": n + ".bak", "head": n[:-4], "copy": "my_" + n,
                        "dir": "../" + n, "sub": "old/" + n}[how]] = rng.choice([0, 1, 900])
            known = {n for t in els for n in pool[t] + [t + ".rel-pbesol-n-kjpaw_psl.1.0.0.UPF"]}
            decoys = {d: k for d, k in decoys.items() if d not in known}
        return {"pool": pool, "missing": missing, "ops": ops, "prepared": rng.random() < 0.3, "decoys": decoys}

    def run(self, plan, ctx):
        simfs.quiet_unraisable()
        root = simfs.scratch("p19")
        back, pp = os.getcwd(), lib.pp_files
        try:
            os.chdir(root)
            if plan["prepared"]:
                os.makedirs("qe-data")
                os.makedirs("pseudo")
            for n, k in plan["decoys"].items():
                os.makedirs(os.path.dirname("pseudo/" + n), exist_ok=True)
                with open("pseudo/" + n, "wb") as fh:
                    fh.write(b"x" * k)
            lib.pp_files = {}
            self.asked = set()
            table = {}
            for i, o in enumerate(plan["ops"]):
                table = self.one(plan, i, o, root, table, ctx)
        finally:
            os.chdir(back)
            lib.pp_files = pp
            simfs.drop(root)

    def one(self, plan, i, o, root, table, ctx):
        names = {t: n for t, n in o["names"]}
        if o["how"] == "again":
            names = table                # what the module remembers in this process
        rng = rng_for("p19", o["seed"])
        asked, served = [], {}
        state = {"i": 0}

        def net(url):
            base = url.split("/upf_files/", 1)
            name = base[1] if len(base) == 2 else None
            asked.append((url, name))
            if name is None or not url.startswith("https://pseudopotentials.quantum-espresso.org/"):
                return ("refuse",)
            if name in plan["missing"]:
                served[name] = "404"
                return ("404",)
            k = o["net"][state["i"] % len(o["net"])]
            state["i"] += 1
            served[name] = k
            b = content(name)
            if k == "refuse":
                return (k,)
            return (k, b) if k == "ok" else (k, b, rng.choice([0, 1, len(b) // 2, len(b) - 1, rng.randrange(len(b))]))

        w = procs.World(root, {"wget": procs.p_wget, "curl": procs.p_curl} if not o["nowget"] else {}, rng, net)
        f = o["fault"]
        fsx = SimFS(root)
        tr = None
        if f is not None:
            if f["kind"] in ("die", "kill", "KI"):
                w.fault = f
            elif f["kind"].startswith("fs"):
                fsx.fault = Fault(f["at"], f["kind"][2:])
            else:
                tr = f["u"]
        before = self.files(root)
        if o["how"] == "xml":
            os.makedirs("qe-data", exist_ok=True)
            self.xml("qe-data/mat.xml", names)
            # other crystals of this process stay in the list
            names = {**lib.pp_files, **names}
        end = "ok"
        with w, fsx:
            try:
                if tr is not None:
                    # the number of places depends on the run; a place after the end never comes
                    with interrupt.Tracer("KI", int(tr * tr * 260), record=False) as t:
                        self.call(o, names)
                else:
                    self.call(o, names)
            except SimKill:
                end = "killed"
            except KeyboardInterrupt:
                end = "interrupted"
            except OSError as e:
                end = f"OSError {e.errno}"
                e.__traceback__ = None
                if not fsx.fired and not o["nowget"]:
                    raise Violation("prepare-raises", f"preparation {i} raised {e!r} although only downloads failed", o)
        hit = w.fired is not None or bool(fsx.fired) or (tr is not None and t.fired is not None)
        ctx.ev()
        if hit:
            ctx.fault(f["kind"] + ("-orphan" if f.get("orphan") and f["kind"] == "kill" else ""))
        for k in served.values():
            if k != "ok":
                ctx.fault("net-" + k)
        if o["nowget"]:
            ctx.fault("no-wget")
        after = self.files(root)
        ctx.trace(o["how"], sorted(after), asked, end)
        # what was requested, as names
        want = {t: n if n is not None else t + ".rel-pbesol-n-kjpaw_psl.1.0.0.UPF" for t, n in names.items()}
        good = {n for n in want.values() if n is not None and n not in BAD}
        bad = {n for n in want.values() if n in BAD}
        self.asked |= good
        ctx.state(o["how"], tuple(sorted(served.values())), end, f["kind"] if f else None, w.fired[1] if w.fired else None,
                  fsx.fired[0][1:] if fsx.fired else None, len([n for n in good if n in before]), len(bad))
        # names never run
        for argv in w.execs:
            prog = os.path.basename(argv[0]) if argv else ""
            if prog not in FETCHERS and prog not in MOVERS:
                raise Violation("name-executed", f"preparation {i} ran {argv}", o)
            for word in argv[1:]:
                for n in bad:
                    if n in word and n not in ("..",):
                        raise Violation("unsafe-name-used", f"the unsafe name {n!r} was given to {prog}: {argv}", o)
        for url, name in asked:
            if name not in good:
                raise Violation("unsafe-name-fetched", f"{url!r} was fetched, but only {sorted(good)} are plain names which were "
                                "asked for", o)
        for d, _, fs in os.walk(root):
            for n in fs:
                if "PWNED" in n:
                    raise Violation("name-executed", f"a file name made the file {n}", o)
        # files under a final name are complete
        for n in sorted(self.asked):
            if n in after:
                if n in plan["missing"]:
                    raise Violation("missing-file-appeared", f"{n} does not exist on the server, but is in pseudo/ "
                                    f"({len(after[n])} bytes) after preparation {i} ({end})", o)
                if after[n] != content(n):
                    raise Violation("incomplete-pseudopotential", f"{n} has {len(after[n])} of {len(content(n))} bytes after "
                                    f"preparation {i} ({end}, transfers {served}, fault {f})", o)
        for n, b in before.items():
            if n in self.asked and n not in after:
                raise Violation("complete-file-gone", f"{n} was there before preparation {i} and is gone now", o)
        again = [n for _, n in asked if n in before and n in self.asked]
        if again:
            raise Violation("fetched-again", f"{again[0]} was complete and was fetched again", o)
        if not hit and not o["nowget"]:
            if end != "ok":
                raise Violation("prepare-raises", f"preparation {i} ended with {end} although only downloads failed", o)
            lost = sorted(n for n in good if n not in after and served.get(n, "ok") == "ok" and n not in plan["missing"])
            if lost:
                raise Violation("not-fetched", f"{lost[0]} was asked for and the network worked, but it is not there (asked: "
                                f"{sorted({n for _, n in asked})}, transfers {served})", o)
            ctx.probe("all_there" if all(n in after for n in good) else "some_there")
        if hit and end == "killed" or end == "interrupted" and rng.random() < 0.5:
            lib.pp_files = {}
            return {}
        ctx.sample({"how": o["how"], "transfers": served, "fault": f, "end": end, "skipped": sorted(bad)})
        # what a later call without arguments stands for
        if o["how"] == "dict":
            return want if end == "ok" else dict(lib.pp_files)
        return dict(lib.pp_files)

    def call(self, o, names):
        if o["how"] == "dict":
            lib.qe_prepare(dict(names))
        elif o["how"] == "again":
            lib.qe_prepare()
        else:
            lib.from_disk("mat", prepare_pseudopotentials=True)

    @staticmethod
    def files(root):
        out = {}
        d = root + "/pseudo"
        if os.path.isdir(d):
            for n in sorted(os.listdir(d)):
                if os.path.isfile(d + "/" + n):
                    with open(d + "/" + n, "rb") as fh:
                        out[n] = fh.read()
        return out

    @staticmethod
    def xml(path, names):
        from xml.sax.saxutils import escape
        cell = np.eye(3) * 7.0
        d = {"calculation": "scf", "prefix": "mat", "cell": cell, "atoms": [(t, [0, 0, 0.1 * i]) for i, t in enumerate(names)],
             "species": [(t, 1.0, escape(n)) for t, n in names.items()], "ecut": 40.0, "noncolin": False, "spinorbit": False,
             "occupations": "fixed", "smearing": "mv", "degauss": 0.02}
        with open(path, "wb") as fh:
            fh.write(qe.result_xml(d))

    def shrink(self, plan):
        for c in shrink_list(plan["ops"], 1):
            yield dict(plan, ops=c)
        for i, o in enumerate(plan["ops"]):
            for c in shrink_list(o["names"], 1):
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, names=c)] + plan["ops"][i + 1:])
            if o["fault"] is not None:
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, fault=None)] + plan["ops"][i + 1:])
            if plan["decoys"]:
                yield dict(plan, decoys={})
            if o["net"] != ["ok"]:
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, net=["ok"])] + plan["ops"][i + 1:])
