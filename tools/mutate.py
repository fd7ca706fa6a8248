#!/usr/bin/env python3
"""Mutation runs: every small syntactic change of one module against its checks.

mutate.py MODULE.py [--every K] [--jobs N] [--out FILE]: works on copies under /tmp; prints the
mutants no check reports. For development only; no check uses it."""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

MAP = {
    "src/numerics/utilities.py": "C26 C12 C11 C10 C29",
    "src/numerics/ode_solver.py": "C02 C03", "src/numerics/euler.py": "C02 C03 C29",
    "src/numerics/heun.py": "C02 C03 C29", "src/numerics/runge_kutta2.py": "C02 C03 C29",
    "src/numerics/runge_kutta4.py": "C02 C03 C29",
    "src/numerics/optim_scg.py": "C17 C16 C30",
    "src/var_bayes/fwd_ode.py": "C02 C29", "src/var_bayes/bwd_ode.py": "C03 C29",
    "src/var_bayes/gaussian_moments.py": "C01 C29",
    "src/var_bayes/gaussian_like.py": "C14 C05 C29", "src/var_bayes/likelihood.py": "C14 C05",
    "src/var_bayes/prior_kl0.py": "C13 C05 C29",
    "src/var_bayes/variational.py": "C27 C15 C28 C23",
    "src/var_bayes/simulation.py": "C23 C24",
    "src/dynamics/stochastic_process.py": "C20 C19 C22 C21",
    "src/dynamics/double_well.py": "C06 C21 C19 C18 C22",
    "src/dynamics/ornstein_uhlenbeck.py": "C07 C21 C19 C18 C22",
    "src/dynamics/lorenz_63.py": "C21 C08 C19 C18 C22",
    "src/dynamics/lorenz_96.py": "C21 C18 C19 C22 C09",
    "vgpa_main.py": "C25",
}
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
        ast.Pow: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
       ast.NotIn: ast.In}


def sites(tree):
    """(description, mutation function) pairs over node positions in a fresh walk order."""
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(
                n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                                        and getattr(n.value.func, "id", "") == "print"):
            doc.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            doc.update(id(x) for x in ast.walk(n))
    out = []
    for k, n in enumerate(nodes):
        if id(n) in doc:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            out.append((k, "op", ln))
        elif isinstance(n, ast.AugAssign) and type(n.op) in SWAP:
            out.append((k, "aug", ln))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((k, "unary", ln))
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((k, "cmp", ln))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((k, "bool", ln))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            out.append((k, "num+", ln))
            if n.value not in (0, 1):
                out.append((k, "num/", ln))
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            out.append((k, "T", ln))
        elif isinstance(n, ast.BoolOp):
            out.append((k, "bool-op", ln))
        elif isinstance(n, ast.If):
            out.append((k, "if-true", ln))
            out.append((k, "if-false", ln))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            out.append((k, "del", ln))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((k, "swap-args", ln))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "copy", "diagonal", "ravel", "flatten", "sum"):
            out.append((k, "uncall", ln))
    return out


def mutate(src, k, kind):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[k]

    class R(ast.NodeTransformer):
        def visit(self, x):
            if x is n:
                return self.change(x)
            return self.generic_visit(x)

        def change(self, x):
            if kind in ("op", "aug"):
                x.op = SWAP[type(x.op)]()
            elif kind == "unary":
                return x.operand
            elif kind == "cmp":
                x.ops[0] = CMP[type(x.ops[0])]()
            elif kind == "bool":
                x.value = not x.value
            elif kind == "num+":
                x.value = x.value + 1 if isinstance(x.value, int) else x.value * 1.5 + (
                    1.0 if x.value == 0 else 0)
            elif kind == "num/":
                x.value = x.value - 1 if isinstance(x.value, int) else x.value * 0.5
            elif kind == "T":
                return x.value
            elif kind == "bool-op":
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            elif kind == "if-true":
                x.test = ast.copy_location(ast.Constant(True), x.test)
            elif kind == "if-false":
                x.test = ast.copy_location(ast.Constant(False), x.test)
            elif kind == "del":
                return ast.copy_location(ast.Pass(), x)
            elif kind == "swap-args":
                x.args[0], x.args[1] = x.args[1], x.args[0]
            elif kind == "uncall":
                return x.func.value
            return x
    tree = ast.fix_missing_locations(R().visit(tree))
    return ast.unparse(tree)


def one(job):
    verif, rel, src, k, kind, ln, props = job
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        try:
            new = mutate(src, k, kind)
        except Exception as e:          # noqa: BLE001
            return dict(line=ln, kind=kind, result=f"no mutant {e}")
        with open(os.path.join(repo, rel), "w") as f:
            f.write(new)
        base = ast.unparse(ast.parse(src)).splitlines()
        diff = [b for a, b in zip(base, new.splitlines()) if a != b][:1]
        v = os.path.join(d, "verif")
        shutil.copytree(verif, v, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        env = dict(os.environ, VG_REPO=repo, VG_JOBS="1")
        codes = {}
        t0 = time.time()
        for p in props:
            try:
                r = subprocess.run(["./run.sh", p], cwd=v, env=env, capture_output=True, text=True,
                                   timeout=700)
                codes[p] = r.returncode
                if r.returncode == 2:
                    codes[p + "-why"] = r.stdout[-300:]
            except subprocess.TimeoutExpired:
                codes[p] = "timeout"
            if codes[p] == 1:
                break
        res = "caught" if 1 in codes.values() else (
            "survived" if all(c == 0 for c in codes.values()) else "undecided")
        return dict(line=ln, kind=kind, new=diff, result=res, codes=codes,
                    wall=round(time.time() - t0, 1))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--out")
    ap.add_argument("--verif", default=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    ap.add_argument("--props")
    ap.add_argument("--lines")
    a = ap.parse_args()
    with open(os.path.join("/repo", a.module)) as f:
        src = f.read()
    ss = sites(ast.parse(src))
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        ss = [s for s in ss if lo <= s[2] <= hi]
    random.Random(1).shuffle(ss)
    ss = ss[::a.every]
    props = (a.props or MAP[a.module]).split()
    rs = []
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(one, [(a.verif, a.module, src, k, kind, ln, props) for k, kind, ln in ss]):
            rs.append(r)
            if r["result"] != "caught":
                print(json.dumps(r), flush=True)
    n = {}
    for r in rs:
        n[r["result"]] = n.get(r["result"], 0) + 1
    print(a.module, len(rs), n, flush=True)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(rs, f, indent=1)


main()
