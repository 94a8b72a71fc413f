"""Mutation campaign: small edits of one source file, each judged by the scenarios that run it, with reduced bounds.

usage: mutate.py FILE[:function] GROUP,GROUP... [--states N] [--jobs N] [--secs N]
Prints the survivors. Development aid: no check uses it."""
import argparse
import ast
import copy
import json
import os
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = r'''
import sys, os, time, json
sys.path.insert(0, sys.argv[1]); sys.path.insert(1, sys.argv[2])
groups, states, secs = sys.argv[3].split(","), int(sys.argv[4]), float(sys.argv[5])
try:
    from mc import registry
    S = registry.load()
except BaseException as e:
    print("KILLED import", type(e).__name__); os._exit(0)
end = time.perf_counter() + secs
todo = [s for k, s in S.items() if s.quick and any(k.startswith(g) for g in groups)]
todo.sort(key=lambda s: s.weight)
n = 0
masked = {}
for s in todo:
    if time.perf_counter() > end:
        break
    b = dict(s.quick)
    if "max_states" in b: b["max_states"] = min(b["max_states"], states)
    if "max_execs" in b: b["max_execs"] = min(b["max_execs"], states * 4)
    try:
        st = s.run(sorted(s.props)[0], b, 1, min(end, time.perf_counter() + 20))
    except BaseException as e:
        print("KILLED (exception)", s.name, type(e).__name__, str(e)[:100]); os._exit(0)
    n += 1
    if st.other: masked[s.name] = sorted(st.other)
    if st.violations or any(k in s.props for k in st.other):
        print("KILLED", s.name, (st.violations[0][1] if st.violations else {k: v for k, v in st.other.items() if k in s.props})); os._exit(0)
print("SURVIVED", n, "of", len(todo), "masked" if masked else "", dict(list(masked.items())[:2]) or ""); sys.stdout.flush(); os._exit(0)
'''


class Mutations(ast.NodeVisitor):
    """collects (description, path to node, replacement maker)"""

    def __init__(self):
        self.out = []
        self.fn = []

    def add(self, node, what, new):
        self.out.append((".".join(self.fn), getattr(node, "lineno", 0), what, node, new))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.body(n)
        self.generic_visit(n)
        self.fn.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def body(self, n):
        pass

    def generic_visit(self, n):
        if self.fn and isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.stmt(n)
        if self.fn and isinstance(n, ast.expr):
            self.expr(n)
        super().generic_visit(n)

    def stmt(self, n):
        t = ast.unparse(n)
        if "logging." in t.split("\n")[0] or '"""' in t[:4] or t.startswith("'"):
            return
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return
            self.add(n, "delete: " + t, ast.Pass())
        if isinstance(n, ast.Return):
            if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                for v in (("return True", "return False") if ast.unparse(n.value) in ("True", "False") else ()):
                    if v != t:
                        self.add(n, f"{t} -> {v}", ast.parse(v).body[0] if False else ast.Return(ast.Constant(v.endswith("True"))))
            else:
                self.add(n, "delete: return", ast.Pass())
        if isinstance(n, (ast.If, ast.While)):
            for v, e in (("not", ast.UnaryOp(ast.Not(), n.test)), ("True", ast.Constant(True)), ("False", ast.Constant(False))):
                if isinstance(n, ast.While) and v != "False":
                    continue
                m = copy.copy(n)
                m.test = e
                self.add(n, f"{t.splitlines()[0]} -> {v}", m)
        if isinstance(n, ast.Raise):
            self.add(n, "delete: " + t, ast.Pass())

    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            o = type(n.ops[0])
            if o in sw:
                m = copy.copy(n)
                m.ops = [sw[o]()]
                self.add(n, f"{ast.unparse(n)} -> {ast.unparse(m)}", m)
        if isinstance(n, ast.BoolOp):
            m = copy.copy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            self.add(n, f"{ast.unparse(n)} -> {ast.unparse(m)}", m)
            for i in range(len(n.values)):
                v = [x for j, x in enumerate(n.values) if j != i]
                m = v[0] if len(v) == 1 else ast.BoolOp(n.op, v)
                self.add(n, f"{ast.unparse(n)} -> {ast.unparse(m)}", m)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.JoinedStr):
            m = copy.copy(n)
            m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            self.add(n, f"{ast.unparse(n)} -> {ast.unparse(m)}", m)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            self.add(n, f"{n.value} -> {n.value + 1}", ast.Constant(n.value + 1))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "get") and len(n.args) == 2:
            pass


class Replace(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return super().generic_visit(n) if n is not self.old else n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("groups")
    ap.add_argument("--states", type=int, default=250)
    ap.add_argument("--jobs", type=int, default=5)
    ap.add_argument("--secs", type=int, default=150)
    a = ap.parse_args()
    path, _, fn = a.file.partition(":")
    src = open(os.path.join("/repo", path)).read()
    tree = ast.parse(src)
    m = Mutations()
    m.visit(tree)
    muts = [x for x in m.out if (not fn or fn in x[0]) and ".register" not in x[0]]
    seen, jobs = set(), []
    for f, line, what, old, new in muts:
        t2 = Replace(old, new)
        # fresh parse each time: transformers work in place
        tr = ast.parse(src)
        # locate the same node by position in walk order
        idx = [i for i, x in enumerate(ast.walk(tree)) if x is old][0]
        o2 = list(ast.walk(tr))[idx]
        nw = copy.deepcopy(new)
        code = ast.unparse(ast.fix_missing_locations(Replace(o2, nw).visit(tr)))
        if code in seen:
            continue
        seen.add(code)
        jobs.append((f, line, what, code))
    print(f"{path}: {len(jobs)} mutants", flush=True)
    running, results, k = [], [], 0
    import time
    while jobs or running:
        while jobs and len(running) < a.jobs:
            f, line, what, code = jobs.pop(0)
            d = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mut")
            subprocess.run(["cp", "-a", "/repo/scaled", d + "/scaled"], check=True)
            with open(os.path.join(d, path), "w") as fh:
                fh.write(code)
            env = dict(os.environ, MC_REPO=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=VERIF + ":" + d)
            p = subprocess.Popen(["timeout", str(a.secs + 60), PY, "-c", RUN, VERIF, d, a.groups, str(a.states), str(a.secs)],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd="/tmp/mut")
            running.append((p, f, line, what, d))
        for r in list(running):
            p, f, line, what, d = r
            if p.poll() is not None:
                out = p.stdout.read().strip().splitlines()
                out = out[-1] if out else f"NOTHING rc={p.returncode}"
                running.remove(r)
                subprocess.run(["/bin/rm", "-rf", d])
                if not out.startswith("KILLED"):
                    print(f"  {f}:{line}: {what[:160]!r}: {out}", flush=True)
                else:
                    k += 1
        time.sleep(0.05)
    print(f"{path}: {k} killed", flush=True)


main()
