"""P15: continuing from the files of an earlier run reproduces the same calculation."""
import os
import subprocess
import re

import numpy as np

from .. import fs as simfs
from .. import procs, qe
from ..core import HarnessError, Scenario, Violation, rng_for, shrink_list
from ..fs import SimKill
from tight_binding_redweasel import qespresso_interface as lib

HOWS = ["scf", "nscf", "nosym", "bands", "relax"]


class Site:
    """a directory with pseudopotentials, in which processes of the library run one after another"""

    def __init__(self, spec):
        self.spec = spec
        self.root = simfs.scratch("qe")
        os.makedirs(self.root + "/qe-data")
        os.makedirs(self.root + "/pseudo")
        self.cut = {}
        for i, t in enumerate(dict.fromkeys(spec["types"])):
            self.cut[t] = 25.0 + 7 * i
            with open(f"{self.root}/pseudo/{spec['pp'][t]}", "wb") as f:
                f.write(qe.pseudo_bytes(t, self.cut[t], 2.0 + i))
        self.back = os.getcwd()
        self.pp = lib.pp_files
        os.chdir(self.root)

    def close(self):
        os.chdir(self.back)
        lib.pp_files = self.pp
        simfs.drop(self.root)

    def new_process(self):
        lib.pp_files = {}

    def create(self):
        s = self.spec
        self.new_process()
        lib.qe_prepare(dict(s["pp"]))
        c = lib.QECrystal(s["name"], np.array(s["A"]), s["basis"], s["types"], s["ecut"], unit=s["unit"], relativistic=s["rel"])
        if s["T"]:
            c.T = s["T"]
        return c

    def create_other(self, kind):
        """the result of an earlier run of another crystal"""
        s = self.spec
        self.new_process()
        t = s["types"][-1]
        pp = dict(s["pp"])
        if kind == "pp":
            pp[t] = f"{t}.other.UPF"
            with open(f"pseudo/{pp[t]}", "wb") as h:
                h.write(qe.pseudo_bytes("X", 99.0, 1.0))
        lib.qe_prepare(pp)
        c = lib.QECrystal("other", np.diag([3.0, 3.1, 3.2]), [(0.25, 0, 0)], [t], 41.5, relativistic=not s["rel"])
        c.T = 0 if s["T"] else 777.0
        w = procs.World(self.root, {"mpirun": qe.mpirun, "pw.x": qe.pw(lambda *a: None, lambda d: d)}, rng=rng_for("p15", 1))
        w.writing = w.result = None
        with w:
            c.scf(2)

    def result(self, name):
        p = f"qe-data/{name}.xml"
        if not os.path.exists(p):
            return None
        with open(p, "rb") as f:
            return f.read()

    def expected(self):
        return qe.expected(self.spec, max(self.cut[t] for t in self.spec["types"]))


def call(crystal, how, arg):
    k = lib.k_grid(2 + arg % 3)
    if how == "scf":
        crystal.scf(2 + arg % 4)
    elif how == "nscf":
        crystal.nscf(k, 8 + arg % 5)
    elif how == "nosym":
        crystal.nscf_nosym(lib.k_points([(0, 0, 0), (0.25, 0.5, 0)], "crystal"), 8 + arg % 5)
    elif how == "bands":
        crystal.bands(8 + arg % 5, lib.k_points([(0, 0, 0), (0.5, 0.5, 0.5)], "crystal_b"))
    elif how == "relax":
        crystal.relax(2 + arg % 3, fix_volume=bool(arg % 2))
    else:
        raise HarnessError(how)


def edit(crystal, expect, what, x):
    """the user changes a parameter of the crystal"""
    e = dict(expect)
    if what == "T":
        crystal.T = x
        e["smearing"] = ("mv", 0.02) if x == 0 else ("fd", x * qe.RY_KELVIN)
    elif what == "ecut":
        crystal.kinetic_energy_cutoff = x
        e["ecut"] = x
    elif what == "rel":
        crystal.relativistic = x
        e["rel"] = x
    elif what == "scale":
        crystal.A = crystal.A * x
        e["cell"] = e["cell"] * x
    elif what == "tasks":
        crystal.set_multitasking_parameters(x)
    return e


class SCENARIO(Scenario):
    prop = "P15"
    rule = "distinct (kind of calculation, section read, way the run ended, what was being written) after how many restarts"
    stubs = ("pw.x, mpirun, tee and the command interpreter (simulated, in numbered steps); the result files follow "
             "examples/qe-data/cu.xml; Bohr radius and Boltzmann constant of Quantum Espresso 7.3")
    assumptions = ["the library's Bohr radius has 8 digits (1.7e-9 relative per restart); differences below 1e-6 are not counted"]
    quick_runs = 2400
    quick_wall = 45.0

    def plan(self, rng, i, tier):
        n = rng.randint(1, rng.choice([6, 6, 12, 30]) if tier == "quick" else rng.choice([6, 14, 40]))
        ops = []
        for _ in range(n):
            o = {"how": rng.choice(HOWS), "arg": rng.randrange(60), "restart": rng.random() < 0.75, "out": rng.random() < 0.7,
                 "fault": None, "seed": rng.randrange(1 << 30)}
            if rng.random() < 0.3:
                o["fault"] = {"kind": rng.choice(["die", "die", "kill", "KI"]), "at": rng.randrange(0, 24),
                              "orphan": rng.random() < 0.3}
            o["prepare"] = rng.random() < 0.2
            o["read"] = rng.choice([None] * 6 + [0, 1])
            o["first"] = rng.choice([None] * 5 + ["list", "crystal"])
            o["other"] = rng.choice([None] * 4 + ["read", "run"])
            o["edit"] = None
            if rng.random() < 0.2:
                o["edit"] = rng.choice([["T", rng.choice([0, 77, 293.15, round(rng.uniform(1, 5000), 2),
                                                           rng.uniform(0.05, 2.0), rng.uniform(2, 30000)])],
                                        ["ecut", round(rng.uniform(15, 120), rng.choice([0, 2, 5]))],
                                        ["rel", rng.random() < 0.5], ["scale", round(rng.uniform(0.9, 1.1), 4)],
                                        ["tasks", rng.randrange(1, 5)]])
            ops.append(o)
        # the result of another crystal with some of the species, rarely with other pseudopotentials for them
        return {"crystal": qe.gen_crystal(rng, species=(6, 14) if rng.random() < 0.02 else None), "ops": ops, "other": rng.choice(["same"] * 19 + ["pp"])}

    def run(self, plan, ctx):
        site = Site(plan["crystal"])
        try:
            self.session(plan, site, ctx)
        finally:
            site.close()

    def session(self, plan, site, ctx):
        name = plan["crystal"]["name"]
        if any(o.get("other") for o in plan["ops"]):
            site.create_other(plan["other"])
        foreign = False        # another crystal with other pseudopotentials was read into this process
        crystal = site.create()
        expect = site.expected()
        done = None            # (expected by input section, by output section) of the run whose result is on disk
        torn = False
        restarts = 0
        for o in plan["ops"]:
            if o["restart"] and (done or torn):
                site.new_process()
                foreign = False
                restarts += 1
                if torn:
                    try:
                        crystal = lib.from_disk(name, read_output=o["out"])
                    except Exception:
                        crystal, expect, done, torn = site.create(), site.expected(), None, False
                        ctx.probe("torn-rejected")
                        os.unlink(f"qe-data/{name}.xml")
                    else:
                        raise Violation("torn-result-accepted", f"from_disk accepted a result file cut by a crash")
                else:
                    w = procs.World(site.root)
                    if o.get("first"):
                        # the script works with other pseudopotentials before it reads the earlier run
                        other = {t: f"{t}.other.UPF" for t in plan["crystal"]["pp"]}
                        for f in other.values():
                            with open(f"pseudo/{f}", "wb") as h:
                                h.write(qe.pseudo_bytes("X", 99.0, 1.0))
                        lib.qe_prepare(other)
                        if o["first"] == "crystal":
                            lib.QECrystal("other", np.eye(3) * 3.3, [(0.25, 0, 0)], [plan["crystal"]["types"][0]], relativistic=True).T = 99.0
                        ctx.probe("first-" + o["first"])
                    with w:
                        crystal = lib.from_disk(name, read_output=o["out"], prepare_pseudopotentials=o["prepare"])
                    if w.execs:
                        raise Violation("fetched-again", f"pseudopotentials which are there were fetched again: {w.execs}")
                    expect = done[1 if o["out"] else 0]
                    ctx.probe("from_disk")
            if o.get("read") is not None and done and not torn and os.path.exists(f"qe-data/{name}.save/data-file-schema.xml"):
                # reading the bands takes the lattice of the result
                with open(f"qe-data/{name}.save/data-file-schema.xml") as f:
                    text = f.read()
                try:
                    crystal.read_bands_crystal(incomplete=bool(o["read"]))
                except Exception:
                    if not o["read"] or text.rstrip().endswith("</qes:espresso>"):
                        raise
                    ctx.probe("torn-rejected")
                else:
                    if o["read"]:
                        rows = [re.search(rf"<a{i}>([^<]*)</a{i}>", text[text.index("<output"):]).group(1).split() for i in (1, 2, 3)]
                        expect = dict(expect, cell=np.array(rows, dtype=float).reshape(3, 3))
                    else:
                        expect = dict(expect, cell=done[1]["cell"])
                ctx.probe("read-bands")
            if o.get("other"):
                other = lib.from_disk("other")
                foreign = foreign or plan["other"] == "pp"
                if o["other"] == "run":
                    w = procs.World(site.root, {"mpirun": qe.mpirun, "pw.x": qe.pw(lambda *a: None, lambda d: d)}, rng=rng_for("p15", 2))
                    w.writing = w.result = None
                    with w:
                        other.scf(2)
                ctx.probe("other-" + o["other"])
            if o["edit"]:
                expect = edit(crystal, expect, *o["edit"])
                ctx.probe("edit-" + o["edit"][0])
            seen = []
            geo = np.random.RandomState(o["seed"])

            def on_deck(d, f, text):
                seen.append(d)
                ctx.ev()
                if d["prefix"] != name:
                    raise Violation("wrong-prefix", f"deck {f} has prefix {d['prefix']}")
                diff = qe.compare(d, expect)
                if d["occupations"] != "smearing":
                    diff.append(("occupations", f"occupations='{d['occupations']}': the deck carries no electronic temperature"))
                if diff and foreign and all(what == "pseudopotential" and f".other.UPF instead" in m for what, m in diff):
                    raise Violation("pseudopotential-of-another-crystal", f"after from_disk of another crystal the {o['how']} deck differs: "
                                    + "; ".join(m for _, m in diff), text[:3000])
                if diff:
                    raise Violation(f"{diff[0][0]}-changed", f"after {restarts} restarts the {o['how']} deck differs: "
                                    + "; ".join(m for _, m in diff), text[:3000])

            def relaxed(d):
                M = np.eye(3) + geo.uniform(-0.03, 0.03, (3, 3))
                return {"cell": d["cell"] @ M, "atoms": [(t, list(np.array(x) + geo.uniform(-0.02, 0.02, 3) * (j > 0)))
                                                         for j, (t, x) in enumerate(d["atoms"])]}

            w = procs.World(site.root, {"mpirun": qe.mpirun, "pw.x": qe.pw(on_deck, relaxed)}, rng=rng_for("p15", o["seed"]))
            w.writing = w.result = None
            w.fault = o["fault"]
            killed = False
            before = site.result(name)
            with w:
                try:
                    call(crystal, o["how"], o["arg"])
                except SimKill:
                    killed = True
                except (KeyboardInterrupt, subprocess.CalledProcessError):
                    # the library may also tell how the program ended
                    if not w.fired:
                        raise
            if w.fired:
                ctx.fault(o["fault"]["kind"] + "-" + w.fired[1] + ("-" + w.writing if w.writing in ("save", "xml") else ""))
            if not seen and not w.fired:
                raise Violation("no-deck", f"{o['how']} did not run pw.x (commands: {w.execs})")
            now = site.result(name)
            if w.result and now is not None and now.rstrip() == w.result[2].rstrip():
                d, out, _ = w.result
                torn = False
                e_in = dict(expect)
                e_out = dict(expect)
                if out:
                    e_out.update(cell=out["cell"], atoms=out["atoms"])
                done = (e_in, e_out)
            elif now != before:
                torn, done = True, None
            ctx.state(o["how"], o["out"], w.fired and (o["fault"]["kind"], w.fired[1]), w.writing, min(restarts, 4))
            ctx.trace(o["how"], w.n, w.fired, w.writing, w.execs, [sorted(s["lists"]["system"].items()) for s in seen])
            ctx.sample({"how": o["how"], "fault": o["fault"], "fired": w.fired, "restarts": restarts, "writing": w.writing})
            if killed:
                o = None
                site.new_process()
                foreign = False
                if not done and not torn:
                    crystal, expect = site.create(), site.expected()
                elif done:
                    restarts += 1
                    crystal = lib.from_disk(name)
                    expect = done[1]
                else:
                    crystal, expect = site.create(), site.expected()

    def shrink(self, plan):
        for c in shrink_list(plan["ops"], 1):
            yield dict(plan, ops=c)
        for i, o in enumerate(plan["ops"]):
            if o["fault"]:
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, fault=None)] + plan["ops"][i + 1:])
            if o["edit"]:
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, edit=None)] + plan["ops"][i + 1:])
            if o["how"] != "scf":
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, how="scf")] + plan["ops"][i + 1:])
        c = plan["crystal"]
        if len(c["types"]) > 1:
            yield dict(plan, crystal=dict(c, types=c["types"][:-1], basis=c["basis"][:-1]))
        if c["rel"]:
            yield dict(plan, crystal=dict(c, rel=False))
        if c["T"]:
            yield dict(plan, crystal=dict(c, T=0))
        if c["unit"] != "angstrom":
            yield dict(plan, crystal=dict(c, unit="angstrom"))
