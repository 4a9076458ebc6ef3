#!/usr/bin/env python3
"""Sensitivity study: small changes of the code, and which checks notice them.

mutate.py OUT.jsonl [--area NAME ...] [--n N] [--jobs N] [--seed N]

Works in copies of /repo and /verif below /tmp; mutants which no check of their area notices are run
through the repository's tests, and those which pass are listed for review (many change nothing that
any property speaks about).  No check uses this."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys

PKG = "src/tight_binding_redweasel"
# area -> (file, functions (None: all), checks)
AREAS = {
    "save-asym": ("tight_binding_asym.py", ["save", "load"], ["P01", "P02", "P03", "P04", "P08"]),
    "save-sym": ("bandstructure.py", ["save", "load", "params_complex", "set_params_complex"], ["P01", "P02", "P03", "P04", "P06", "P08"]),
    "json": ("json_tb_format.py", None, ["P02", "P03", "P04", "P01", "P08"]),
    "wannier": ("wannier90_tb_format.py", None, ["P02", "P03", "P04", "P01", "P18"]),
    "atomic": ("atomic_file.py", None, ["P01", "P03", "P04"]),
    "neighbors": ("tight_binding_asym.py", ["add_neighbors", "limit_neighbors", "limit_neighbor_count", "cleanup_neighbors", "transform", "copy"],
                  ["P07", "P08"]),
    "series": ("tight_binding_asym.py", ["unit_matrix", "direct_sum", "__add__", "__mul__", "supercell", "f", "f_i", "new", "init_from_ref",
                                         "randomize", "band_count", "dim"], ["P08", "P10"]),
    "basis": ("tight_binding_asym.py", ["normalize", "permute", "params_complex", "set_from_complex", "bands"], ["P06", "P08"]),
    "basis-sym": ("bandstructure.py", ["normalize", "permute", "copy", "randomize", "__add__", "__mul__", "supercell", "transform", "f"],
                  ["P06", "P08"]),
    "basis-tb": ("tight_binding.py", ["normalize", "params_complex", "set_from_complex", "copy", "copy_transformed", "init_from_ref"],
                 ["P06", "P08"]),
    "fit-asym": ("tight_binding_asym.py", ["optimize", "optimize_cg"], ["P05", "P10"]),
    "fit-sym": ("bandstructure.py", ["optimize", "optimize_cg"], ["P05", "P10"]),
    "fit-tb": ("tight_binding.py", ["optimize"], ["P05", "P10"]),
    "logger": ("logger.py", None, ["P05", "P10", "P09"]),
    "autofit": ("tight_binding_asym.py", ["autofit_asym"], ["P09", "P10"]),
    "dos": ("density_of_states.py", None, ["P13", "P14", "P11", "P10"]),
    "bulk": ("bulk_properties.py", None, ["P12", "P11"]),
    "smearing": ("smearing.py", None, ["P12", "P13"]),
    "checks": ("symmetry.py", ["check", "check_symmetry"], ["P14"]),
    "checks-u": ("unitary_representations.py", ["check_symmetry"], ["P14"]),
    "qe-decks": ("qespresso_interface.py", ["k_points", "k_grid", "_crystal", "scf", "relax", "bands", "nscf", "nscf_nosym", "crystal_wannier",
                                            "k_points_wannier", "prepare_wannier", "from_disk", "__init__"], ["P15", "P16"]),
    "qe-read": ("qespresso_interface.py", ["read_bandx_raw", "read_bandx", "read_bands_crystal", "read_projections_order_spilling",
                                           "read_projections", "read_valence_electrons", "set_cutoff_from_pseudopotentials", "read_dos",
                                           "_load_table", "read_dielectric_function"], ["P18"]),
    "qe-binary": ("qespresso_interface.py", ["read_wavefunctions", "read_charge_density", "_read_record"], ["P17"]),
    "qe-prepare": ("qespresso_interface.py", ["qe_prepare"], ["P19"]),
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "+", ast.Mod: "+"}


class Text:
    def __init__(self, src):
        self.b = src.encode()
        self.off = [0]
        for ln in self.b.split(b"\n"):
            self.off.append(self.off[-1] + len(ln) + 1)

    def at(self, line, col):
        return self.off[line - 1] + col

    def span(self, n):
        return self.at(n.lineno, n.col_offset), self.at(n.end_lineno, n.end_col_offset)

    def sub(self, a, z, new):
        return (self.b[:a] + new.encode() + self.b[z:]).decode()


def mutants(src, funcs):
    t = Text(src)
    tree = ast.parse(src)
    out = []

    def add(kind, n, a, z, new):
        old = t.b[a:z].decode()
        out.append({"kind": kind, "line": n.lineno, "old": old, "new": new, "a": a, "z": z})

    def visit(fn):
        doc = ast.get_docstring(fn, clean=False)
        for n in ast.walk(fn):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn and isinstance(n, ast.ClassDef):
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                a, z = t.span(n.left)[1], t.span(n.comparators[0])[0]
                add("compare", n, a, z, f" {CMP[type(n.ops[0])]} ")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, z = t.span(n.left)[1], t.span(n.right)[0]
                s = t.b[a:z].decode()
                if s.strip() in ("+", "-", "*", "/", "//", "%"):
                    add("arith", n, a, z, f" {BIN[type(n.op)]} ")
            elif isinstance(n, ast.Constant) and type(n.value) in (int, bool, float) and n.lineno == n.end_lineno:
                a, z = t.span(n)
                s = t.b[a:z].decode()
                if s in ("True", "False"):
                    add("bool", n, a, z, {"True": "False", "False": "True"}[s])
                elif s.isdigit():
                    add("const", n, a, z, str(int(s) + 1))
                    if int(s) > 0:
                        add("const", n, a, z, str(int(s) - 1))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                a, z = t.span(n)[0], t.span(n.operand)[0]
                add("unary", n, a, z, "")
            elif isinstance(n, ast.If):
                a, z = t.span(n.test)
                add("if", n, a, z, "not (" + t.b[a:z].decode() + ")")
                add("if-true", n, a, z, "True")
            elif isinstance(n, ast.BoolOp):
                a, z = t.span(n.values[0])[1], t.span(n.values[1])[0]
                add("bool-op", n, a, z, " or " if isinstance(n.op, ast.And) else " and ")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                a = t.span(n.func.value)[1]
                add("no-copy", n, a, t.span(n)[1], "")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "array" and n.args:
                a, z = t.span(n.func)
                add("no-copy", n, a, z, "np.asarray")
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Return, ast.Delete, ast.Continue, ast.Break)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                a, z = t.span(n)
                add("delete", n, a, z, "pass")
            if isinstance(n, ast.With) and len(n.body) == 1 and False:
                pass

    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and (funcs is None or n.name in funcs):
            visit(n)
    seen, uniq = set(), []
    for m in out:
        k = (m["a"], m["z"], m["new"])
        if k not in seen:
            seen.add(k)
            uniq.append(m)
    return t, uniq


def work(job):
    area, m, slot, verif, repo = job
    f, _, checks = AREAS[area]
    W = f"{repo}_{slot}_{os.getpid()}_{m['id']}"
    shutil.copytree(repo, W, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", "examples"))
    p = f"{W}/{PKG}/{f}"
    src = open(p).read()
    t = Text(src)
    new = t.sub(m["a"], m["z"], m["new"])
    r = dict(m, area=area, file=f, text=src.split("\n")[m["line"] - 1].strip(), checks={})
    try:
        try:
            compile(new, p, "exec")
        except SyntaxError:
            r["fate"] = "syntax"
            return r
        open(p, "w").write(new)
        env = dict(os.environ, VERIF_REPO_SRC=W + "/src", VERIF_SEED="1", VERIF_HANG_SECONDS="60", PYTHONPATH=W + "/src", MPLBACKEND="Agg")
        V = f"{W}/verif"
        shutil.copytree(verif, V, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "__pycache__"))
        for c in checks:
            try:
                q = subprocess.run([V + "/check.sh", c, "--workers", "2", "--wall", "240"], env=env, capture_output=True, text=True, timeout=600)
                rc, line = q.returncode, [x for x in q.stdout.split("\n") if "seed=" in x][:1]
            except subprocess.TimeoutExpired:
                rc, line = "timeout", []
            r["checks"][c] = rc
            if rc != 0:
                r["fate"] = "caught" if rc == 1 else f"rc {rc}"
                r["by"], r["what"] = c, (line[0][:300] if line else q.stderr[-200:] if rc != "timeout" else "")
                break
        else:
            shutil.copytree(repo + "/tests", W + "/tests", dirs_exist_ok=True)
            try:
                q = subprocess.run("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 tests", shell=True, cwd=W, env=env,
                                   capture_output=True, text=True, timeout=900)
                r["tests"] = q.stdout.strip().split("\n")[-1]
                r["fate"] = "survived" if q.returncode == 0 else "tests"
            except subprocess.TimeoutExpired:
                r["fate"] = "tests"
        return r
    finally:
        shutil.rmtree(W, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--area", nargs="*")
    ap.add_argument("--n", type=int, default=20)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--verif", default=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    a = ap.parse_args()
    repo = "/tmp/mutrepo_%d" % os.getpid()
    verif = "/tmp/mutverif_%d" % os.getpid()
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    shutil.copytree(a.verif, verif, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "__pycache__"))
    jobs = []
    try:
        for area in a.area or AREAS:
            f, funcs, _ = AREAS[area]
            _, ms = mutants(open(f"{repo}/{PKG}/{f}").read(), funcs)
            random.Random(f"{a.seed} {area}").shuffle(ms)
            for i, m in enumerate(ms[:a.n]):
                m["id"] = f"{area}-{i}"
                jobs.append((area, m, i, verif, repo))
        with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
            for r in ex.map(work, jobs):
                out.write(json.dumps(r) + "\n")
                out.flush()
                if r["fate"] != "syntax":
                    print(r["area"], r["line"], r["kind"], r["fate"], r.get("by", ""), flush=True)
    finally:
        shutil.rmtree(repo, ignore_errors=True)
        shutil.rmtree(verif, ignore_errors=True)


if __name__ == "__main__":
    main()
