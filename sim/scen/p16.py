"""P16: the input decks for one crystal are the same in every process, and well formed."""
import os
import random

import numpy as np

from . import p15
from .p10 import Noise
from .. import fs as simfs
from .. import interrupt, procs, qe, zygote
from ..core import HarnessError, Scenario, Violation, rng_for, shrink_list
from ..fs import SimFS
from tight_binding_redweasel import kpaths
from tight_binding_redweasel import qespresso_interface as lib

HASH_SEEDS = [1, 2, 7, 11]
HOWS = ["scf", "nscf", "nosym", "bands", "relax", "bandx", "dos", "epsilon", "projwfc", "win", "pw2wan", "plotwin", "fs",
        "scf3", "path"]


def call(c, o, spec):
    how, arg = o["how"], o["arg"]
    r = np.random.RandomState(arg)
    if how in ("scf", "nscf", "nosym", "bands", "relax"):
        p15.call(c, how, arg)
    elif how == "scf3":
        c.scf(2 + arg % 3, 1 + arg % 4, 1 + arg % 2)
    elif how == "path":
        p = [kpaths.FCC_PATH, kpaths.SC_PATH, kpaths.KPath("G").to("X", N=3).to(np.array([0.1, 0.2, 1 / 3]), N=4)][arg % 3]
        c.bands(6, p)
    elif how == "bandx":
        c.bandx()
    elif how == "dos":
        c.dos()
    elif how == "epsilon":
        c.dielectric_function(100 + arg)
    elif how == "projwfc":
        c.projections(lwrite_overlaps=bool(arg % 2))
    elif how == "win":
        c.prepare_wannier((-5.0, 20.0 + arg), (-5.0, 10.0), wannier_count=[None, 4][arg % 2],
                          grid_size=1 + arg % 3 if arg % 3 or arg // 2 % 2 else None,
                          symmetry=bool(arg // 2 % 2), write_tb=bool(arg // 4 % 2), exclude_bands=[None, "1-3"][arg // 8 % 2])
    elif how == "plotwin":
        p = kpaths.SC_PATH
        c.prepare_plot_wannier_bands(p, np.eye(3) + r.uniform(-0.1, 0.1, (3, 3)), wannier_count=[3, None][arg // 2 % 2],
                                     grid_size=[None, 2, 1][arg % 3])
    elif how == "pw2wan":
        c.overlaps_for_wannier(use_sym=bool(arg % 2))
    elif how == "fs":
        c.fermi_surface()
    else:
        raise HarnessError(how)


def reader(got, name):
    """a program which only looks at its namelists"""
    def prog(p):
        f = None
        for k in ("-in", "-i", "-inp", "-input"):
            if k in p.argv:
                f = p.argv[p.argv.index(k) + 1]
        text = p.read(f).decode() if f else p.stdin.decode()
        got.append((name, f or "<stdin>", text))
    return prog


STALE = ["scf", "relax", "band", "bandx", "dos", "nscf", "epsilon", "projwfc", "pw2wan", "fs"]


def wannier(got):
    def prog(p):
        a = [x for x in p.argv[1:] if not x.startswith("-")]
        got.append(("wannier90.x", a[0] + ".win", p.read(a[0] + ".win").decode()))
    return prog


def geometry(d):
    g = np.random.RandomState(len(d["atoms"]))
    M = np.eye(3) + g.uniform(-0.03, 0.03, (3, 3))
    return {"cell": d["cell"] @ M, "atoms": [(t, list(np.array(x) + 0.01 * j)) for j, (t, x) in enumerate(d["atoms"])]}


EDITS = ["pp", "scale", "move", "swap", "T", "ecut", "rel", "name", "density", "other", "auto"]


def edit(site, c, o, got):
    """the user changes the crystal or the pseudopotentials between two calculations"""
    what, r = o["what"], np.random.RandomState(o["arg"])
    x = None
    if what == "pp":
        x = {str(t): f"{t}.edit{o['arg']}-{i}.UPF" for i, t in enumerate(dict.fromkeys(c.types))}
        for f in x.values():
            with open(f"{site.root}/pseudo/{f}", "wb") as h:
                h.write(qe.pseudo_bytes("X", 40.0, 4.0))
        lib.qe_prepare(dict(x))
    elif what == "auto":
        # the library chooses the pseudopotential of one species and fetches it
        x = {str(t): f"{t}.edit{o['arg']}-{i}.UPF" for i, t in enumerate(dict.fromkeys(c.types))}
        for f in x.values():
            with open(f"{site.root}/pseudo/{f}", "wb") as h:
                h.write(qe.pseudo_bytes("X", 40.0, 4.0))
        auto = list(x)[o["arg"] % len(x)]
        d = f"{site.root}/pseudo/"
        away = {}
        for f in os.listdir(d):
            if f.startswith(auto + ".") and f not in x.values():
                with open(d + f, "rb") as h:
                    away[f] = h.read()
                os.unlink(d + f)
        there = set(os.listdir(d))
        lib.qe_prepare({**x, auto: None})
        new = set(os.listdir(d)) - there
        for f, b in away.items():
            with open(d + f, "wb") as h:
                h.write(b)
        if len(new) != 1:
            raise Violation("no-automatic-pseudopotential", f"{auto}: None fetched {sorted(new)}")
        x[auto] = new.pop()
    elif what == "scale":
        x = 0.9 + 0.2 * r.random_sample()
        if c.A.dtype.kind == "f" and o["arg"] % 2:
            c.A *= x
        else:
            c.A = c.A * x
    elif what == "density":
        x = 0.9 + 0.2 * r.random_sample()
        c.scale_to_density(c.mass_density() / x**3)
    elif what == "other":
        # another crystal made from the same arrays gets another size
        d = lib.QECrystal("other", c.A, c.basis, c.types, 30.0, unit=c.unit)
        d.scale_to_density(0.5 * d.mass_density())
        d.T = 400.0
        d.scf(3)
        got.pop()
    elif what == "move":
        x = int(r.randint(len(c.types)))
        c.basis = np.array(c.basis, float) if c.basis.dtype.kind != "f" else c.basis
        c.basis[x] += 0.125
    elif what == "swap":
        # the same atoms in another order
        if o["arg"] % 2:
            c.types[:] = c.types[::-1].copy()
            c.basis[:] = c.basis[::-1].copy()
        else:
            c.types, c.basis = c.types[::-1], c.basis[::-1]
    elif what == "T":
        x = c.T = [0, 250.0, 1234.5, 0.3712, 11604.51812][o["arg"] % 5]
    elif what == "ecut":
        x = c.kinetic_energy_cutoff = 20.0 + o["arg"] / 8
    elif what == "rel":
        x = c.relativistic = bool(o["arg"] % 2)
    elif what == "name":
        old, x = c.name, c.name + "b"
        # the results so far go with it
        import shutil
        for f in (".xml", ".save"):
            if os.path.isdir(f"qe-data/{old}{f}"):
                shutil.copytree(f"qe-data/{old}{f}", f"qe-data/{x}{f}", dirs_exist_ok=True)
            elif os.path.exists(f"qe-data/{old}{f}"):
                shutil.copy(f"qe-data/{old}{f}", f"qe-data/{x}{f}")
        c.name = x
    got.append(("edit", "", what, x))


def follow(e, what, x):
    """the expected calculation after an edit"""
    e = dict(e)
    if what in ("pp", "auto"):
        e["species"] = {t: (m, x[t]) for t, (m, _) in e["species"].items()}
    elif what in ("scale", "density"):
        e["cell"] = e["cell"] * x
    elif what == "move":
        e["atoms"] = [(t, [v + 0.125 for v in p] if i == x else p) for i, (t, p) in enumerate(e["atoms"])]
    elif what == "swap":
        e["atoms"] = e["atoms"][::-1]
    elif what == "T":
        e["smearing"] = ("mv", 0.02) if x == 0 else ("fd", x * qe.RY_KELVIN)
    elif what == "ecut":
        e["ecut"] = float(x)
    elif what == "rel":
        e["rel"] = bool(x)
    return e


def clone(c):
    """the same crystal, built from its parameters"""
    d = lib.QECrystal(c.name, np.array(c.A), np.array(c.basis), np.array(c.types), c.kinetic_energy_cutoff, unit=c.unit,
                      relativistic=c.relativistic)
    d.T = c.T
    d.set_multitasking_parameters(c.nk, c.nd, c.ni, c.nt)
    return d


def session(spec, ops, via_disk, got, rebuild=False, stale=None):
    """one crystal, one directory: all decks it hands to programs, in order"""
    site = p15.Site(spec)
    try:
        crystal = site.create()
        texts = []

        def on_deck(d, f, text):
            got.append(("pw.x", f or "<stdin>", text))

        progs = {"mpirun": qe.mpirun, "pw.x": qe.pw(on_deck, geometry), "wannier90.x": wannier(got), "xcrysden": lambda p: 0,
                 "wget": procs.p_wget, "curl": procs.p_curl}
        for n in ("bands", "dos", "epsilon", "projwfc", "pw2wannier90", "fs"):
            progs[n + ".x"] = reader(got, n + ".x")
        w = procs.World(site.root, progs, net=lambda url: ("ok", qe.pseudo_bytes("X", 40.0, 4.0)))
        w.writing = w.result = None
        if stale is not None:
            # decks of a process which died, perhaps while it wrote them
            r = random.Random(stale)
            for x in [s + ".in" for s in STALE] + ["win"]:
                with open(f"{spec['name']}.{x}", "wb") as f:
                    f.write((b"&control\n  prefix='old',\n/\n" * 200)[:r.choice([0, 7, 21, 4000])])
        with w:
            # the wannier decks need results of a calculation
            crystal.scf(2)
            if via_disk:
                if via_disk == 2:
                    crystal.relax(2)
                site.new_process()
                crystal = lib.from_disk(spec["name"], read_output=bool(via_disk != 3))
            for o in ops:
                n = len(got)
                if o["how"] == "edit":
                    edit(site, crystal, o, got)
                    continue
                if rebuild:
                    crystal = clone(crystal)
                call(crystal, o, spec)
                if len(got) == n:
                    raise HarnessError(f"{o['how']} ran no program: {w.execs[-3:]}")
        return got
    finally:
        site.close()


def process(arg):
    """runs in a fresh process"""
    plan, v = arg
    simfs.quiet_unraisable()
    os.environ["VERIF_SCRATCH"] = v["scratch"]
    os.makedirs(v["scratch"], exist_ok=True)
    hit = []
    with Noise(v):
        for h in v["history"]:
            try:
                if h["fault"] == "KI":
                    with interrupt.Tracer("KI", h["at"], record=False):
                        session(h["crystal"], h["ops"], h["via"], [])
                else:
                    session(h["crystal"], h["ops"], h["via"], [])
                hit.append(("session", False))
            except (KeyboardInterrupt, Violation, HarnessError) as e:
                e.__traceback__ = None
                hit.append(("session", type(e).__name__))
        got = []
        try:
            session(plan["crystal"], plan["ops"], plan["via"], got, v["rebuild"], v.get("stale"))
            end = None
        except Violation as e:
            end = (e.sig, e.msg)
        except HarnessError:
            raise
        except Exception as e:
            import traceback
            end = ("raised-" + type(e).__name__, "".join(traceback.format_exception(e))[-1500:])
    simfs.drop(v["scratch"])
    return got, end, hit


def parse_win(text):
    blocks, keys, cur = {}, {}, None
    for ln in text.split("\n"):
        s = ln.split("!")[0].strip()
        if not s:
            continue
        w = s.split()
        if w[0] == "begin":
            cur = w[1]
            blocks[cur] = []
        elif w[0] == "end":
            if cur != w[1]:
                raise Violation("bad-deck", f"win: end {w[1]} inside {cur}")
            cur = None
        elif cur:
            blocks[cur].append(s)
        elif "=" in s:
            k, x = s.split("=", 1)
            keys[k.strip()] = x.strip()
        else:
            raise Violation("bad-deck", f"win: cannot read {s!r}")
    if cur:
        raise Violation("bad-deck", f"win: block {cur} not closed")
    return keys, blocks


class SCENARIO(Scenario):
    prop = "P16"
    rule = "distinct (deck kind, hash seed, built or read from disk, earlier sessions, print options)"
    stubs = ("pw.x and the other programs (record their decks), mpirun, tee, command interpreter; clock, entropy, process id, "
             "terminal; hash seeds by real interpreters")
    assumptions = ["masses are compared with standard atomic weights to 2 percent"]
    quick_runs = 800
    quick_wall = 60.0

    def plan(self, rng, i, tier):
        spec = qe.gen_crystal(rng, max_atoms=8, species=(6, 14) if rng.random() < 0.03 else None)
        if len(set(spec["types"])) < 2 and rng.random() < 0.85:
            while len(set(spec["types"])) < 2:
                spec = qe.gen_crystal(rng, max_atoms=8)
        ops = [{"how": h, "arg": rng.randrange(60)} for h in rng.sample(HOWS, rng.randint(2, 7))]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            q = rng.randint(1, len(ops))
            again = [o for o in ops[:q] if o["how"] != "edit"]
            ops[q:q] = [{"how": "edit", "what": rng.choice(EDITS), "arg": rng.randrange(60)}, dict(rng.choice(again))]
        vs = []
        for hs in rng.sample([0] + HASH_SEEDS, 3):
            hist = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                h = qe.gen_crystal(rng, max_atoms=4)
                if rng.random() < 0.4:
                    h["name"] = spec["name"]
                hist.append({"crystal": h, "ops": [{"how": rng.choice(HOWS), "arg": rng.randrange(60)}], "via": rng.choice([0, 1, 2]),
                             "fault": rng.choice([None, None, "KI"]), "at": rng.randrange(1, 700)})
            vs.append({"hash": hs, "noise": rng.randrange(1 << 20), "history": hist, "rebuild": rng.random() < 0.5, "stale": rng.choice([None, rng.randrange(1000)]),
                       "print": rng.choice([None, {"precision": 3, "suppress": True}, {"floatmode": "fixed", "precision": 1},
                                            {"threshold": 2, "linewidth": 20}, {"sign": "+"}])})
        vs[0]["history"] = []
        vs[0]["stale"] = None
        vs[0]["print"] = None
        vs[0]["rebuild"] = False
        vs[1]["rebuild"] = True
        return {"crystal": spec, "ops": ops, "via": rng.choice([0, 0, 1, 2, 3]), "processes": vs}

    def run(self, plan, ctx):
        res = []
        for n, v in enumerate(plan["processes"]):
            v = dict(v, scratch=os.path.join(os.environ["VERIF_SCRATCH"], f"{os.getpid()}-p16-{n}"))
            if v["hash"] == 0:
                r = zygote.fresh("sim.scen.p16", "process", (plan, v))
            else:
                r = zygote.with_hash_seed(v["hash"], "sim.scen.p16", "process", (plan, v))
            got, end, hit = r
            if end is not None:
                raise Violation(end[0], end[1])
            res.append(got)
            for h, (_, how) in zip(v["history"], hit):
                ctx.fault("aborted-session" if how == "KeyboardInterrupt" else "earlier-session")
            ctx.fault(f"hash-seed-{v['hash']}")
            if v.get("stale") is not None:
                ctx.fault("stale-decks")
            if v["print"]:
                ctx.fault("print-options")
        self.form(plan, res[0], ctx)
        for v, got in zip(plan["processes"][1:], res[1:]):
            if [g[:2] for g in got] != [g[:2] for g in res[0]]:
                raise Violation("other-programs", f"other programs were run: {[g[:2] for g in got]} instead of {[g[:2] for g in res[0]]}")
            for a, b in zip(res[0], got):
                if a[0] == "edit":
                    ctx.probe("edit-" + a[2])
                    continue
                ctx.ev()
                ctx.state(a[0], a[1].split(".")[-2:], v["hash"], plan["via"], len(v["history"]), bool(v["print"]))
                if a[2] != b[2]:
                    la, lb = a[2].split("\n"), b[2].split("\n")
                    d = [(x, y) for x, y in zip(la, lb) if x != y][:4]
                    raise Violation(f"deck-differs-{a[0]}", f"the deck {a[1]} differs between two processes (hash seeds "
                                    f"{plan['processes'][0]['hash']} and {v['hash']}, {len(v['history'])} earlier sessions, "
                                    f"print options {v['print']}): {d}")
        ctx.trace([[g[:2] for g in r] for r in res], [hash_text(g[2]) for g in res[0]])
        if any(v["rebuild"] for v in plan["processes"]):
            ctx.fault("rebuilt-crystal")
        ctx.sample({"decks": [g[1] for g in res[0]], "processes": [(v["hash"], len(v["history"])) for v in plan["processes"]]})

    def form(self, plan, got, ctx):
        """counts and lists of each deck agree with the crystal"""
        spec = plan["crystal"]
        cut = max(25.0 + 7 * i for i, t in enumerate(dict.fromkeys(spec["types"])))
        e = qe.expected(spec, cut)
        moved, result, name, types = None, None, spec["name"], list(spec["types"])
        for prog, f, text, *x in got:
            ctx.ev()
            if prog == "edit":
                e = follow(e, text, *x)
                types = types[::-1] if text == "swap" else types
                name = x[0] if text == "name" else name
                continue
            if prog == "pw.x":
                d = qe.parse_pw(text)
                if d["calculation"] == "vc-relax":
                    moved = geometry(d)
                result = d["cell"]
                skip = {"cell", "positions"} if moved or plan["via"] == 2 else set()
                diff = [x for x in qe.compare(d, e) if x[0] not in skip]
                if diff:
                    raise Violation(f"wrong-{diff[0][0]}", f"{f}: " + "; ".join(m for _, m in diff), text[:3000])
            elif prog == "wannier90.x":
                keys, blocks = parse_win(text)
                # it is made from the results of the last calculation, and reading them sets the lattice
                e = dict(e, cell=result)
                at = blocks.get("atoms_frac", [])
                if [a.split()[0] for a in at] != types:
                    raise Violation("wrong-atom-order", f"{f}: atoms {at} instead of {types}")
                n = np.prod([int(x) for x in keys["mp_grid"].split()])
                if len(blocks["kpoints"]) != n:
                    raise Violation("wrong-k-count", f"{f}: {len(blocks['kpoints'])} k points for mp_grid {keys['mp_grid']}")
                unit = blocks["unit_cell_cart"][0].lower()
                cell = np.array([[float(x) for x in r.split()] for r in blocks["unit_cell_cart"][1:4]])
                cell = cell / (qe.BOHR if unit.startswith("ang") else 1.0)
                pos = np.array([[float(x) for x in a.split()[1:]] for a in at])
                if not moved and plan["via"] != 2:
                    if np.abs(cell - e["cell"]).max() > 1e-5:
                        raise Violation("wrong-cell", f"{f}: cell {cell.tolist()} instead of {e['cell'].tolist()}")
                    if np.abs(pos - np.array([x for _, x in e["atoms"]])).max() > 1e-5:
                        raise Violation("wrong-positions", f"{f}: positions {pos.tolist()}")
            else:
                try:
                    lists, cards = qe.split_deck(text)
                except qe.BadDeck as x:
                    raise Violation("bad-deck", f"{prog} cannot read {f}: {x}\n{text}")
                main = [x for x in lists.values() if "prefix" in x]
                if not main or any(x["prefix"] != name for x in main) or cards:
                    raise Violation("bad-deck", f"{prog}: {f} does not name the prefix {name}: {text}")

    def shrink(self, plan):
        for c in shrink_list(plan["ops"], 1):
            yield dict(plan, ops=c)
        ps = plan["processes"]
        for i in range(1, len(ps)):
            if len(ps) > 2:
                yield dict(plan, processes=ps[:i] + ps[i + 1:])
            for k, x in (("history", []), ("print", None), ("stale", None), ("hash", 0), ("rebuild", False)):
                if ps[i][k] and (k != "hash" or ps[0]["hash"] == 0):
                    yield dict(plan, processes=ps[:i] + [dict(ps[i], **{k: x})] + ps[i + 1:])
        if plan["via"]:
            yield dict(plan, via=0)
        c = plan["crystal"]
        if len(c["types"]) > 2:
            yield dict(plan, crystal=dict(c, types=c["types"][:-1], basis=c["basis"][:-1]))


def hash_text(s):
    import hashlib
    return hashlib.sha256(s.encode()).hexdigest()[:12]
