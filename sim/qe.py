"""Simulated Quantum Espresso: crystals, the input deck reader and the programs' output files.

Nothing here uses the library; formats follow the documentation of Quantum Espresso 7.3 and
the real output in /repo/examples/qe-data.
"""
import re

import numpy as np

from .core import HarnessError, Violation

BOHR = 0.529177210903          # angstrom, the value of Quantum Espresso 7.3
RY_KELVIN = 1.380649e-23 / 2.1798723611035e-18      # Rydberg per Kelvin
MASSES = {"H": 1.008, "C": 12.011, "N": 14.007, "O": 15.999, "Na": 22.990, "Mg": 24.305, "Al": 26.982, "Si": 28.085,
          "Cl": 35.45, "Ti": 47.867, "Fe": 55.845, "Cu": 63.546, "Zn": 65.38, "Ga": 69.723, "As": 74.922,
          "Sr": 87.62, "Ba": 137.33, "W": 183.84, "Pt": 195.08, "Au": 196.97, "Pb": 207.2}
ELEMENTS = sorted(MASSES)


def gen_crystal(rng, name=None, max_atoms=6, species=None):
    r = np.random.RandomState(rng.randrange(1 << 31))
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, max_atoms])
    nt = rng.randint(1, min(n, 5))
    if species:
        # many species
        nt = rng.randint(*species)
        n = nt + rng.randint(0, 3)
    pool = rng.sample(ELEMENTS, nt)
    types = [pool[i] if i < nt else rng.choice(pool) for i in range(n)]
    rng.shuffle(types)
    kind = rng.choice(["cubic", "fcc", "bcc", "hex", "tri", "int"])
    a = round(rng.uniform(2.0, 9.0), rng.choice([2, 4, 12]))
    if kind == "cubic":
        A = np.eye(3) * a
    elif kind == "fcc":
        A = np.array([[-1, 0, 1], [0, 1, 1], [-1, 1, 0]]).T * a / 2
    elif kind == "bcc":
        A = np.array([[1, 1, 1], [-1, 1, 1], [-1, -1, 1]]).T * a / 2
    elif kind == "hex":
        A = np.array([[1, 0, 0], [-1 / 2, 3**.5 / 2, 0], [0, 0, 1.63]]).T * a
    elif kind == "int":
        A = np.diag(r.randint(3, 9, 3))
    else:
        A = (np.eye(3) + r.uniform(-0.3, 0.3, (3, 3))) * a
    frac = rng.choice(["quarter", "any", "digits"])
    basis = [[0.0, 0.0, 0.0]]
    while len(basis) < n:
        p = r.uniform(-0.2, 1.2, 3)
        if frac == "quarter":
            p = np.round(p * 4) / 4
        elif frac == "digits":
            p = np.round(p, 3)
        basis.append([float(x) for x in p])
    ecut = rng.choice([None, 30, 45.0, round(rng.uniform(20, 90), 3)])
    T = rng.choice([0, 0, 0.0, 300.0, 1000, round(rng.uniform(1, 9000), 2), rng.uniform(0.05, 2.0), rng.uniform(2, 30000)])
    return {"name": name or rng.choice(["cu", "SrTiO3", "mat_1", "x"]), "A": A.tolist(), "basis": basis, "types": types,
            "ecut": ecut, "T": T, "unit": rng.choice(["angstrom", "angstrom", "bohr"]), "rel": rng.random() < 0.4,
            "pp": {t: pp_name(rng, t) for t in dict.fromkeys(types)}}


def pp_name(rng, t):
    return t + rng.choice([".pbesol-dn-kjpaw_psl.1.0.0.UPF", ".rel-pbe-spn-kjpaw_psl.0.1.UPF", "_ONCV_PBE-1.0.oncvpsp.upf",
                           ".pbe-n-rrkjus_psl.1.0.0.UPF"])


def pseudo_bytes(t, cut, zval, seed=0, pad=30):
    r = np.random.RandomState(seed)
    mesh = "\n".join(" ".join(f"{x: .15E}" for x in r.standard_normal(4)) for _ in range(pad))
    return (f'<UPF version="2.0.1">\n  <PP_INFO>\n    generated\n  </PP_INFO>\n  <PP_HEADER generated="atomic"\n'
            f'    author="x" element="{t}" pseudo_type="PAW" is_ultrasoft="true" wfc_cutoff="{cut:.15E}"\n'
            f'    rho_cutoff="{4 * cut:.15E}" l_max="2" z_valence="{zval:.15E}" mesh_size="{4 * pad}"/>\n'
            f'  <PP_MESH>\n{mesh}\n  </PP_MESH>\n</UPF>\n').encode()


# ---------------------------------------------------------------- input decks

class BadDeck(Exception):
    pass


def _value(s):
    t = s.strip()
    if t == "":
        return None
    if t[0] in "'\"":
        if len(t) < 2 or t[-1] != t[0]:
            raise BadDeck(f"unterminated string {t!r}")
        return t[1:-1]
    low = t.lower()
    if low in (".true.", "true", "t", ".t."):
        return True
    if low in (".false.", "false", "f", ".f."):
        return False
    try:
        return int(t)
    except ValueError:
        pass
    try:
        return float(re.sub(r"[dD]", "e", t))
    except ValueError:
        raise BadDeck(f"bad value {t!r}")


def parse_namelist(body):
    out = {}
    # key = value, separated by commas, blanks or line ends
    pos = 0
    rx = re.compile(r"\s*,*\s*([A-Za-z_]\w*(?:\(\d+\))?)\s*=\s*('[^']*'|\"[^\"]*\"|[^\s,'\"]+)")
    body = re.sub(r"!.*", "", body)
    while True:
        m = rx.match(body, pos)
        if not m:
            break
        k = m.group(1).lower()
        if k in out:
            raise BadDeck(f"{k} given twice")
        out[k] = _value(m.group(2))
        pos = m.end()
    rest = body[pos:].strip(" \t\n,")
    if rest:
        raise BadDeck(f"cannot read {rest[:60]!r}")
    return out


def split_deck(text):
    """namelists and cards"""
    lists, cards = {}, []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i].strip()
        if not ln or ln.startswith("!"):
            i += 1
            continue
        if ln.startswith("&"):
            name = ln[1:].strip().lower()
            body = []
            i += 1
            while i < len(lines) and lines[i].strip() != "/":
                if lines[i].strip().startswith("&"):
                    raise BadDeck("namelist not closed")
                body.append(lines[i])
                i += 1
            if i >= len(lines):
                raise BadDeck("namelist not closed")
            i += 1
            if name in lists:
                raise BadDeck(f"&{name} twice")
            lists[name] = parse_namelist("\n".join(body))
            continue
        cards.append(ln)
        i += 1
    return lists, cards


def unit_word(s):
    return s.strip().strip("{}()").strip().lower()


def parse_pw(text):
    """what pw.x understands: a dict in atomic units (bohr, Rydberg)"""
    lists, cards = split_deck(text)
    for n in ("control", "system", "electrons"):
        if n not in lists:
            raise BadDeck(f"no &{n}")
    s, c = lists["system"], lists["control"]
    d = {"calculation": c.get("calculation", "scf"), "prefix": c.get("prefix", "pwscf"), "outdir": c.get("outdir"),
         "pseudo_dir": c.get("pseudo_dir"), "ecut": s.get("ecutwfc"), "nbnd": s.get("nbnd"), "nat": s.get("nat"),
         "ntyp": s.get("ntyp"), "ibrav": s.get("ibrav"), "occupations": s.get("occupations", "fixed"),
         "smearing": s.get("smearing", "gaussian"), "degauss": s.get("degauss", 0.0), "noncolin": s.get("noncolin", False),
         "spinorbit": s.get("lspinorb", False), "nosym": s.get("nosym", False), "noinv": s.get("noinv", False),
         "lists": lists}
    if d["ecut"] is None or isinstance(d["ecut"], str):
        raise BadDeck("no cutoff")
    i = 0
    while i < len(cards):
        w = cards[i].split(None, 1)
        key = w[0].upper()
        opt = unit_word(w[1]) if len(w) > 1 else ""
        i += 1
        if key == "CELL_PARAMETERS":
            M = np.array([[float(x) for x in cards[i + k].split()] for k in range(3)])
            i += 3
            f = {"angstrom": 1 / BOHR, "bohr": 1.0}.get(opt)
            if f is None:
                raise BadDeck(f"cell unit {opt}")
            d["cell"] = M * f                     # rows are the vectors
        elif key == "ATOMIC_SPECIES":
            d["species"] = []
            for k in range(d["ntyp"]):
                a = cards[i].split()
                if len(a) != 3:
                    raise BadDeck(f"species line {cards[i]!r}")
                d["species"].append((a[0], float(a[1]), a[2]))
                i += 1
        elif key == "ATOMIC_POSITIONS":
            d["positions_unit"] = opt
            d["atoms"] = []
            for k in range(d["nat"]):
                a = cards[i].split()
                if len(a) != 4:
                    raise BadDeck(f"atom line {cards[i]!r}")
                d["atoms"].append((a[0], [float(x) for x in a[1:]]))
                i += 1
        elif key == "K_POINTS":
            d["k"] = {"unit": opt}
            if opt == "automatic":
                d["k"]["grid"] = [int(x) for x in cards[i].split()]
                if len(d["k"]["grid"]) != 6:
                    raise BadDeck("k grid")
                i += 1
            elif opt != "gamma":
                n = int(cards[i])
                i += 1
                d["k"]["points"] = [[float(x) for x in cards[i + k].split()] for k in range(n)]
                i += n
        else:
            raise BadDeck(f"unknown card {cards[i - 1]!r}")
    for k in ("cell", "species", "atoms", "k"):
        if k not in d:
            raise BadDeck(f"no {k}")
    if d["positions_unit"] != "crystal":
        inv = np.linalg.inv(d["cell"])
        f = {"angstrom": 1 / BOHR, "bohr": 1.0}.get(d["positions_unit"])
        if f is None:
            raise BadDeck(f"position unit {d['positions_unit']}")
        d["atoms"] = [(t, list(np.array(x) * f @ inv)) for t, x in d["atoms"]]
    if d["ibrav"] != 0:
        raise BadDeck("ibrav != 0 with CELL_PARAMETERS")
    names = [x[0] for x in d["species"]]
    if len(set(names)) != len(names):
        raise BadDeck(f"species listed twice: {names}")
    if {t for t, _ in d["atoms"]} - set(names):
        raise BadDeck("atom of unknown species")
    return d


SMEAR = {"marzari-vanderbilt": "mv", "mv": "mv", "m-v": "mv", "cold": "mv", "fermi-dirac": "fd", "fd": "fd", "f-d": "fd",
         "gaussian": "gaussian", "gauss": "gaussian", "methfessel-paxton": "mp", "m-p": "mp", "mp": "mp"}


def expected(spec, ecut_pp=None):
    """the physical calculation a crystal stands for"""
    T = float(spec["T"])
    f = {"angstrom": 1 / BOHR, "bohr": 1.0}[spec["unit"]]
    return {"cell": np.array(spec["A"], dtype=float).T * f,
            "atoms": [(t, list(map(float, b))) for t, b in zip(spec["types"], spec["basis"])],
            "species": {t: (MASSES[t], spec["pp"][t]) for t in spec["types"]},
            "ecut": float(spec["ecut"] if spec["ecut"] is not None else ecut_pp),
            "smearing": ("mv", 0.02) if T == 0 else ("fd", T * RY_KELVIN), "rel": bool(spec["rel"])}


def compare(d, e, tol=1e-6, smearing=True, mass_tol=2e-2, pos_tol=1e-8):
    """differences between a deck (as parsed) and the expected calculation"""
    out = []
    if np.abs(d["cell"] - e["cell"]).max() > tol * np.abs(e["cell"]).max():
        out.append(("cell", f"cell is {d['cell'].tolist()} bohr instead of {e['cell'].tolist()}"))
    if d["nat"] != len(e["atoms"]) or len(d["atoms"]) != len(e["atoms"]):
        out.append(("atom-count", f"nat={d['nat']}, {len(d['atoms'])} atoms instead of {len(e['atoms'])}"))
    else:
        if [t for t, _ in d["atoms"]] != [t for t, _ in e["atoms"]]:
            out.append(("atom-order", f"atoms are {[t for t, _ in d['atoms']]} instead of {[t for t, _ in e['atoms']]}"))
        a = np.array([x for _, x in d["atoms"]])
        b = np.array([x for _, x in e["atoms"]])
        if np.abs(a - b).max() > pos_tol:
            out.append(("positions", f"fractional positions are {a.tolist()} instead of {b.tolist()}"))
    sp = {n: (m, f) for n, m, f in d["species"]}
    if d["ntyp"] != len(e["species"]) or set(sp) != set(e["species"]):
        out.append(("species", f"species are {sorted(sp)} (ntyp={d['ntyp']}) instead of {sorted(e['species'])}"))
    else:
        for n in sorted(sp):
            if sp[n][1] != e["species"][n][1]:
                out.append(("pseudopotential", f"{n} uses {sp[n][1]} instead of {e['species'][n][1]}"))
            if abs(sp[n][0] - e["species"][n][0]) > mass_tol * e["species"][n][0]:
                out.append(("mass", f"{n} has mass {sp[n][0]} instead of {e['species'][n][0]}"))
    if abs(d["ecut"] - e["ecut"]) > tol * e["ecut"]:
        out.append(("cutoff", f"ecutwfc is {d['ecut']} Ry instead of {e['ecut']}"))
    if (bool(d["noncolin"]), bool(d["spinorbit"])) != (e["rel"], e["rel"]):
        out.append(("relativistic", f"noncolin={d['noncolin']}, lspinorb={d['spinorbit']} instead of {e['rel']}"))
    if smearing and d["occupations"] == "smearing":
        k = SMEAR.get(d["smearing"].lower())
        if k != e["smearing"][0]:
            out.append(("smearing", f"smearing {d['smearing']} instead of {e['smearing'][0]}"))
        elif abs(d["degauss"] - e["smearing"][1]) > 1e-6 * e["smearing"][1]:
            out.append(("degauss", f"degauss is {d['degauss']} Ry instead of {e['smearing'][1]}"))
    return out


# ---------------------------------------------------------------- the result file

def fnum(x):
    m = f"{x:.15E}"
    a, b = m.split("E")
    return f"{a}E{b[0]}{int(b[1:]):03d}"


def vec(v):
    return "  ".join(fnum(x) for x in v)


def rows(v, per=5):
    return "\n".join("  " + "  ".join(fnum(x) for x in v[i:i + per]) for i in range(0, len(v), per))


def structure(cell, atoms, ind):
    alat = float(np.linalg.norm(cell[0]))
    s = f'{ind}<atomic_structure nat="{len(atoms)}" alat="{alat:.16f}">\n{ind}  <atomic_positions>\n'
    for i, (t, x) in enumerate(atoms):
        s += f'{ind}    <atom name="{t}" index="{i + 1}">{vec(np.array(x) @ cell)}</atom>\n'
    s += f"{ind}  </atomic_positions>\n{ind}  <cell>\n"
    for i in range(3):
        s += f"{ind}    <a{i + 1}>{vec(cell[i])}</a{i + 1}>\n"
    return s + f"{ind}  </cell>\n{ind}</atomic_structure>\n"


def species_xml(species, ind, extra=""):
    s = f'{ind}<atomic_species ntyp="{len(species)}"{extra}>\n'
    for n, m, f in species:
        s += f'{ind}  <species name="{n}">\n{ind}    <mass>{fnum(m)}</mass>\n{ind}    <pseudo_file>{f}</pseudo_file>\n{ind}  </species>\n'
    return s + f"{ind}</atomic_species>\n"


def b(x):
    return "true" if x else "false"


def smearing_xml(d, ind):
    if d["occupations"] != "smearing":
        return f"{ind}<occupations>{d['occupations']}</occupations>\n", f"{ind}<occupations_kind>{d['occupations']}</occupations_kind>\n"
    sm = f'{ind}<smearing degauss="{d["degauss"] / 2:.16E}">{SMEAR[d["smearing"].lower()]}</smearing>\n'
    return sm + f"{ind}<occupations>smearing</occupations>\n", f"{ind}<occupations_kind>smearing</occupations_kind>\n" + sm


def result_xml(d, out=None, res=None, par=None, steps=0):
    """the xml file pw.x leaves; d: parsed deck, out: {"cell","atoms"} after relaxation, res: bands and symmetries"""
    out = out or d
    res = res or {"b": np.linalg.inv(out["cell"]).T * np.linalg.norm(out["cell"][0]), "k": np.zeros((1, 3)),
                  "e": np.zeros((1, 4)), "fermi": 0.1, "syms": [(np.eye(3), np.zeros(3))], "lattice_syms": []}
    par = par or {}
    sm_in, sm_out = smearing_xml(d, "      ")
    x = ('<?xml version="1.0" encoding="UTF-8"?>\n<qes:espresso xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" '
         'xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0" Units="Hartree atomic units">\n'
         '  <general_info>\n    <creator NAME="PWSCF" VERSION="7.3.1">XML file generated by PWSCF</creator>\n  </general_info>\n'
         '  <parallel_info>\n'
         f'    <nprocs>{par.get("ni", 1)}</nprocs>\n    <nthreads>1</nthreads>\n    <ntasks>{par.get("nt", 1)}</ntasks>\n'
         f'    <nbgrp>1</nbgrp>\n    <npool>{par.get("nk", 1)}</npool>\n    <ndiag>{par.get("nd", 1)}</ndiag>\n  </parallel_info>\n'
         f'  <input>\n    <control_variables>\n      <calculation>{d["calculation"]}</calculation>\n'
         f'      <prefix>{d["prefix"]}</prefix>\n    </control_variables>\n')
    x += species_xml(d["species"], "    ") + structure(d["cell"], d["atoms"], "    ")
    x += (f'    <dft>\n      <functional>PBE</functional>\n    </dft>\n    <spin>\n      <lsda>false</lsda>\n'
          f'      <noncolin>{b(d["noncolin"])}</noncolin>\n      <spinorbit>{b(d["spinorbit"])}</spinorbit>\n    </spin>\n'
          f'    <bands>\n{sm_in}    </bands>\n    <basis>\n      <gamma_only>false</gamma_only>\n'
          f'      <ecutwfc>{fnum(d["ecut"] / 2)}</ecutwfc>\n      <ecutrho>{fnum(d["ecut"] * 2)}</ecutrho>\n    </basis>\n'
          f'  </input>\n')
    for k in range(steps):
        f = (k + 1) / (steps + 1)
        x += f'  <step n_step="{k + 1}">\n' + structure(d["cell"] * (1 - f) + out["cell"] * f, out["atoms"], "    ") + "  </step>\n"
    x += ('  <output>\n    <convergence_info>\n      <scf_conv>\n        <convergence_achieved>true</convergence_achieved>\n'
          '      </scf_conv>\n    </convergence_info>\n')
    x += species_xml(d["species"], "    ", ' pseudo_dir="./pseudo/"') + structure(out["cell"], out["atoms"], "    ")
    ns, nl = len(res["syms"]), len(res["lattice_syms"])
    sx = f"    <symmetries>\n      <nsym>{ns}</nsym>\n      <nrot>{ns + nl}</nrot>\n      <space_group>0</space_group>\n"
    for i, (S, t) in enumerate(list(res["syms"]) + [(s, None) for s in res["lattice_syms"]]):
        kind = "crystal_symmetry" if t is not None else "lattice_symmetry"
        sx += f'      <symmetry>\n        <info name="s{i}" class="not found">{kind}</info>\n        <rotation rank="2" dims="           3           3">\n'
        sx += "\n".join("  " + vec(r) for r in S) + "\n        </rotation>\n"
        if t is not None:
            if np.any(t) or not res.get("bare"):
                sx += f"        <fractional_translation>\n  {vec(t)}\n        </fractional_translation>\n"
            sx += f'        <equivalent_atoms size="{len(out["atoms"])}" nat="{len(out["atoms"])}">\n  ' + \
                " ".join(str(i + 1) for i in range(len(out["atoms"]))) + "\n        </equivalent_atoms>\n"
        sx += "      </symmetry>\n"
    x += "" if res.get("nosym") else sx + "    </symmetries>\n"
    x += (f'    <basis_set>\n      <gamma_only>false</gamma_only>\n      <ecutwfc>{fnum(d["ecut"] / 2)}</ecutwfc>\n'
          f'      <ecutrho>{fnum(d["ecut"] * 2)}</ecutrho>\n      <reciprocal_lattice>\n')
    for i in range(3):
        x += f"        <b{i + 1}>{vec(res['b'][i])}</b{i + 1}>\n"
    x += (f'      </reciprocal_lattice>\n    </basis_set>\n    <dft>\n      <functional>PBE</functional>\n    </dft>\n'
          f'    <magnetization>\n      <lsda>false</lsda>\n      <noncolin>{b(d["noncolin"])}</noncolin>\n'
          f'      <spinorbit>{b(d["spinorbit"])}</spinorbit>\n      <absolute>0.0</absolute>\n    </magnetization>\n'
          f'    <total_energy>\n      <etot>-1.5</etot>\n    </total_energy>\n    <band_structure>\n      <lsda>false</lsda>\n'
          f'      <noncolin>{b(d["noncolin"])}</noncolin>\n      <spinorbit>{b(d["spinorbit"])}</spinorbit>\n'
          f'      <nbnd>{len(res["e"][0])}</nbnd>\n      <nelec>{fnum(8.0)}</nelec>\n      <wf_collected>true</wf_collected>\n'
          f'      <fermi_energy>{fnum(res["fermi"])}</fermi_energy>\n      <nks>{len(res["k"])}</nks>\n{sm_out}')
    for k, e in zip(res["k"], res["e"]):
        ks = vec(k)
        x += (f'      <ks_energies>\n        <k_point weight="{fnum(1 / len(res["k"]))}">{ks}</k_point>\n        <npw>411</npw>\n'
              f'        <eigenvalues size="{len(e)}">\n{rows(e)}\n        </eigenvalues>\n'
              f'        <occupations size="{len(e)}">\n{rows(np.zeros(len(e)))}\n        </occupations>\n      </ks_energies>\n')
    x += '    </band_structure>\n  </output>\n  <exit_status>0</exit_status>\n</qes:espresso>\n'
    return x.encode()


# ---------------------------------------------------------------- programs

def pw(on_deck, relaxed=None, bands=None):
    """pw.x: reads its deck, works for some steps, then replaces its result files"""
    def prog(p):
        opts, i = {}, 1
        while i < len(p.argv):
            if p.argv[i] in ("-nk", "-nd", "-nt", "-ni", "-in", "-i", "-inp", "-input", "-npool", "-ndiag", "-ntg"):
                opts[p.argv[i]] = p.argv[i + 1] if i + 1 < len(p.argv) else ""
                i += 1
            i += 1
        f = opts.get("-in") or opts.get("-i") or opts.get("-inp") or opts.get("-input")
        text = p.read(f).decode() if f else p.stdin.decode()
        p.step("start")
        if not text.strip():
            p.print("\n     Program PWSCF v.7.3.1 starts on 16Sep2024 at 22:24:23\n")
            return 1
        try:
            d = parse_pw(text)
        except (BadDeck, ValueError, IndexError, TypeError) as e:
            raise Violation("bad-deck", f"pw.x cannot read its input {f}: {e}\n{text}")
        on_deck(d, f, text)
        for s in range(3):
            p.step("scf")
        out = relaxed(d) if d["calculation"] == "vc-relax" and relaxed else None
        par = {"nk": opts.get("-nk", 1), "nd": opts.get("-nd", 1), "nt": opts.get("-nt", 1)}
        x = result_xml(d, out, bands(d, out) if bands else None, par, steps=2 if out else 0)
        base = (d["outdir"] or "./") + d["prefix"]
        import os
        os.makedirs(p.path(base + ".save"), exist_ok=True)
        p.world.writing = "save"
        p.write(base + ".save/data-file-schema.xml", x)
        p.step("between")
        p.world.writing = "xml"
        p.world.result = (d, out, x)
        p.write(base + ".xml", x)
        p.world.writing = "done"
        p.step("end")
        p.print("     JOB DONE.\n")
    return prog


def mpirun(p):
    a = p.argv[1:]
    while a and a[0].startswith("-"):
        if a[0] in ("-np", "-n"):
            a = a[1:]
        a = a[1:]
    rc, o, e = p.world.run_prog(a, p.cwd, p.stdin)
    p.print(o)
    p.error(e)
    return rc
