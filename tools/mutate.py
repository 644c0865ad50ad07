"""Mutation campaign: small edits of the real code that survive the existing tests.

mutate.py gen OUT.json [file.py...]   list the mutants (N: random sample of that size)
mutate.py tests IN.json OUT.json      keep the mutants that the existing tests do not notice
mutate.py checks IN.json OUT.json     run the checks that depend on the mutated file
Scratch copies live under /tmp and are removed.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = ["kalman_filters.py", "likelihood_function.py", "parse_params.py", "params_index.py",
         "constraints.py", "process_data.py", "process_model.py", "check_model.py",
         "process_debug_data.py", "filtered_states.py", "simulate_data.py",
         "transition_functions.py", "utilities.py", "correlation_heatmap.py",
         "visualize_transition_equations.py", "visualize_factor_distributions.py",
         "clipping.py", "decorators.py"]
DEPENDS = {
    "kalman_filters.py": "C01 C02 C03 C04 C05 C07 C08 C13 C14 C16 C27",
    "likelihood_function.py": "C13 C10 C11 C12 C14 C15 C16 C24 C27",
    "parse_params.py": "C09 C08 C13 C21",
    "params_index.py": "C10 C09 C11",
    "constraints.py": "C11 C12",
    "process_data.py": "C17 C18 C19 C13 C24",
    "process_model.py": "C20 C07 C10 C13 C11 C12 C15",
    "check_model.py": "C20",
    "process_debug_data.py": "C16 C25",
    "filtered_states.py": "C25 C08",
    "simulate_data.py": "C21 C22 C19 C24",
    "transition_functions.py": "C06 C07 C11 C10",
    "utilities.py": "C23 C24",
    "correlation_heatmap.py": "C28 C24",
    "visualize_transition_equations.py": "C26 C24",
    "visualize_factor_distributions.py": "C29 C24",
    "clipping.py": "C15 C13",
    "decorators.py": "C07 C06 C13 C26",
}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"],
       ast.FloorDiv: ["/"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.Mod: ["+"]}
BINTXT = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**",
          ast.FloorDiv: "//", ast.BitAnd: "&", ast.BitOr: "|", ast.Mod: "%"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SWAP = {"any": "all", "all": "any", "min": "max", "max": "min", "isfinite": "isnan",
        "isnull": "notnull", "notnull": "isnull", "head": "tail", "mean": "median",
        "repeat": "tile", "ones": "zeros", "zeros": "ones", "reindex": "align",
        "issubset": "issuperset", "union": "intersection"}


def mutants(path):
    src = open(path, newline="").read().replace("\r\n", "\n")
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(node, new, what):
        s, e = pos(node)
        out.append((s, e, new, what, node.lineno))

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module)) and n.body and isinstance(
                n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]:
                add(n, f"({seg(n.left)} {o} {seg(n.right)})", f"{BINTXT[type(n.op)]} -> {o}")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, seg(n.left), "drop right operand")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})", "compare")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(seg(v) for v in n.values) + ")", "and/or")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, seg(n.operand), "drop unary")
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "flip bool")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int+1")
                if n.value > 0:
                    add(n, str(n.value - 1), "int-1")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2 + 0.1), "float")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(n, f"{seg(n.value)}.{SWAP[n.attr]}", f"{n.attr} -> {SWAP[n.attr]}")
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            add(n, SWAP[n.id], f"{n.id} -> {SWAP[n.id]}")
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n, ":" + (seg(n.upper) if n.upper else ""), "drop slice start")
            if n.upper is not None:
                add(n, (seg(n.lower) if n.lower else "") + ":", "drop slice stop")
        elif isinstance(n, ast.Call):
            if n.keywords and len(n.keywords) >= 1:
                for k in n.keywords:
                    if k.arg in ("axis", "sort", "inplace", "fill_value", "level", "drop", "how"):
                        s, e = pos(k)
                        t = b[s - 2:s]
                        if t == b", ":
                            out.append((s - 2, e, "", f"drop keyword {k.arg}", n.lineno))
            if len(n.args) == 2 and not n.keywords:
                add(n, f"{seg(n.func)}({seg(n.args[1])}, {seg(n.args[0])})", "swap args")
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in (
                    "copy", "T", "flatten"):
                add(n, seg(n.func.value), f"drop .{n.func.attr}()")
        elif isinstance(n, ast.IfExp):
            add(n, seg(n.body), "ifexp body")
            add(n, seg(n.orelse), "ifexp else")
        elif isinstance(n, ast.If):
            add(n.test, f"(not ({seg(n.test)}))", "negate if")
            add(n.test, "False", "if False")
            add(n.test, "True", "if True")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr) or (
                    isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript)):
                add(n, "pass", "drop statement")
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                name = n.targets[0].id
                if any(isinstance(m, ast.Name) and m.id == name for m in ast.walk(n.value)):
                    add(n, "pass", "drop reassignment")
        elif isinstance(n, ast.comprehension) and n.ifs:
            add(n.ifs[0], "True", "drop filter")
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(
                n.elts) >= 2 and not any(isinstance(e, ast.Starred) for e in n.elts):
            els = [seg(e) for e in n.elts]
            els[0], els[1] = els[1], els[0]
            br = "[]" if isinstance(n, ast.List) else "()"
            add(n, br[0] + ", ".join(els) + br[1], "swap elements")
    res = []
    for s, e, new, what, line in out:
        res.append(dict(file=os.path.basename(path), start=s, end=e, new=new, what=what, line=line,
                        old=b[s:e].decode()))
    return res


def apply(m, repo):
    p = os.path.join(repo, "skillmodels", m["file"])
    raw = open(p, newline="").read()
    crlf = "\r\n" in raw
    b = raw.replace("\r\n", "\n").encode()
    assert b[m["start"]:m["end"]].decode() == m["old"]
    out = (b[:m["start"]] + m["new"].encode() + b[m["end"]:]).decode()
    ast.parse(out)
    if crlf:
        out = out.replace("\n", "\r\n")
    open(p, "w", newline="").write(out)


class Copies:
    def __init__(self, n):
        import queue

        self.q = queue.Queue()
        self.dir = tempfile.mkdtemp(prefix="mut_")
        for i in range(n):
            w = os.path.join(self.dir, str(i))
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            self.q.put(w)
        self.verif = os.path.join(self.dir, "verif")
        shutil.copytree(V, self.verif, ignore=shutil.ignore_patterns(".git", "seeded", "replays"))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def run(self, m, fn):
        w = self.q.get()
        try:
            apply(m, w)
            return fn(w)
        except SyntaxError:
            return None
        finally:
            subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."])
            self.q.put(w)


def sh(cmd, cwd, timeout, **env):
    e = dict(os.environ, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", **env)
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True,
                              timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return None


def survives(w, file):
    """The existing tests pass; tests of the mutated module go first."""
    first = f"skillmodels/tests/test_{file}"
    if not os.path.exists(os.path.join(w, first)):
        first = ""
    for what, more in ((first, ""), ("skillmodels/tests", f"--ignore={first}" if first else "")):
        if what:
            r = sh(f"timeout 900 {PY} -m pytest -q -x -p no:cacheprovider {what} {more} 2>&1 "
                   "| tail -1", w, 950, PYTHONPATH=w,
                   XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
            if r is None or "failed" in r.stdout or "error" in r.stdout or \
                    "passed" not in r.stdout:
                return False
    return True


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "gen":
        ms = []
        for f in args[1:] or FILES:
            ms += mutants(os.path.join("/repo/skillmodels", f))
        limit = int(os.environ.get("N", len(ms)))
        random.Random(7).shuffle(ms)
        ms = ms[:limit]
        json.dump(ms, open(args[0], "w"), indent=0)
        print(len(ms))
        return
    ms = json.load(open(args[0]))
    workers = int(os.environ.get("W", "8"))
    out = []
    with Copies(workers) as c, ThreadPoolExecutor(workers) as ex:
        if cmd == "tests":
            for m, ok in zip(ms, ex.map(lambda m: c.run(m, lambda w: survives(w, m["file"])), ms)):
                if ok:
                    out.append(m)
                    print(m["file"], m["line"], m["what"], "|", m["old"][:60], "->", m["new"][:60],
                          flush=True)
        else:
            def check(m):
                def go(w):
                    for p in DEPENDS[m["file"]].split():
                        r = sh(f"timeout 800 python3 run.py {p} --workers 2", c.verif, 900,
                               VERIF_REPO=w)
                        rc = "timeout" if r is None else r.returncode
                        if rc != 0:
                            return p, rc
                    return None, 0
                return c.run(m, go)
            for m, r in zip(ms, ex.map(check, ms)):
                m["result"] = r
                out.append(m)
                if r is None or r[1] != 1:
                    print("MISSED" if r and r[1] == 0 else f"RC {r}", m["file"], m["line"],
                          m["what"], "|", m["old"][:70], "->", m["new"][:70], flush=True)
    json.dump(out, open(args[1], "w"), indent=0)
    print(len(ms), len(out))


if __name__ == "__main__":
    main()
