"""mutate.py OUT.jsonl [--files a,b] [--sample N] [--jobs J] [--seed S]: how much of what can be changed in pycose do the checks notice?

Makes one small change at a time (conditions negated or fixed, operands, statements, arguments, list elements and copies dropped,
constants changed), keeps the ones that the repository's own tests do not notice, and runs the quick checks related to the file on them
until one of them reports it.  Everything happens in scratch copies.  The survivors are to be read by hand: a change of behaviour that a
property forbids shows a gap of the checks; most others are equivalent or about error messages."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ORDER = {
    "pycose/extensions/x509.py": "C24 C25 C26",
    "pycose/headers.py": "C11 C12 C18 C25 C24 C10 C08 C09 C19 C20 C26",
    "pycose/algorithms.py": "C18 C07 C01 C03 C05 C08 C09 C02 C04 C06 C13 C17 C21 C20 C24 C26",
    "pycose/utils.py": "C18 C11 C26 C15 C12 C14 C20",
    "pycose/exceptions.py": "C19 C26",
    "pycose/keys/": "C14 C15 C16 C17 C13 C18 C26 C20 C07 C01 C05 C08 C21 C19",
    "pycose/messages/cosebase.py": "C10 C11 C12 C20 C26 C07 C19 C01",
    "pycose/messages/cosemessage.py": "C19 C11 C20 C07 C01 C10 C02 C26 C22",
    "pycose/messages/context.py": "C09 C08 C26 C20 C07",
    "pycose/messages/recipient.py": "C23 C08 C09 C13 C17 C06 C04 C26 C20 C11 C19 C10 C12",
    "pycose/messages/enc": "C21 C05 C06 C13 C23 C07 C20 C26 C22 C08 C19 C11 C12",
    "pycose/messages/mac": "C03 C04 C13 C23 C22 C07 C20 C26 C08 C19 C11 C12",
    "pycose/messages/sign": "C22 C01 C02 C13 C07 C20 C26 C19 C11 C12 C10 C17",
}


CHEAP = "C12 C24 C18 C14 C15 C19 C16 C03 C09 C05 C07 C11 C21 C23 C13 C10 C26 C04 C02 C17 C06 C01 C08 C25 C20 C22".split()
LINES = {}


def related(f, first, last):
    """The checks that execute the changed lines, those meant for the file first."""
    best = max((p for p in ORDER if f.startswith(p)), key=len, default=None)
    mine = ORDER[best].split()[:6] if best else []
    run = [c for c in CHEAP if any((f[7:], n) in LINES[c] for n in range(first, last + 1))]
    return [c for c in CHEAP if c in mine and c in run] + [c for c in CHEAP if c not in mine and c in run]


def trace(dir):
    """Which lines each check executes (module level lines count for all)."""
    for c in CHEAP:
        p = os.path.join(dir, c + ".lines")
        if not os.path.exists(p):
            subprocess.run(["./check", c, "quick", "--seed", "1"], cwd=ROOT, env={**os.environ, "MON_LINES": p, "MON_EVIDENCE": dir, "MON_FRAC": "2"}, capture_output=True)
        LINES[c] = {(f, n) for f, n in json.load(open(p))}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.raw = src.encode()
        self.out = []
        self.doc = set()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.raw[a:b].decode()

    def put(self, n, new, what):
        a, b = self.pos(n)
        if self.raw[a:b].decode() != new:
            self.out.append((a, b, new, what, n.lineno, n.end_lineno))

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                self.doc.add(id(n.body[0]))
                self.doc.add(id(n.body[0].value))
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(n, ast.FunctionDef):
            n.returns = None
            for a in n.args.args + n.args.kwonlyargs:
                a.annotation = None
        if isinstance(n, ast.AnnAssign):
            return
        if isinstance(n, ast.Raise):
            self.put(n, "pass", "raise dropped")
            return
        m = getattr(self, "m_" + type(n).__name__, None)
        if m:
            m(n)
        self.generic_visit(n)

    def m_Compare(self, n):
        swap = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is",
                ast.In: "not in", ast.NotIn: "in"}
        if len(n.ops) == 1:
            self.put(n, "%s %s %s" % (self.text(n.left), swap[type(n.ops[0])], self.text(n.comparators[0])), "comparison")

    def cond(self, t):
        if not isinstance(t, ast.Compare):
            self.put(t, "not (%s)" % self.text(t), "condition negated")
        self.put(t, "True", "condition true")
        self.put(t, "False", "condition false")

    def m_If(self, n):
        if isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            return
        self.cond(n.test)

    def m_IfExp(self, n):
        self.cond(n.test)

    def m_BoolOp(self, n):
        w = " and " if isinstance(n.op, ast.And) else " or "
        for i in range(len(n.values)):
            self.put(n, "(" + w.join(self.text(v) for j, v in enumerate(n.values) if j != i) + ")", "operand dropped")

    def m_Expr(self, n):
        if id(n) not in self.doc and not isinstance(n.value, ast.Constant):
            self.put(n, "pass", "statement dropped")

    def m_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.put(n, "pass", "assignment dropped")

    def m_Delete(self, n):
        self.put(n, "pass", "del dropped")

    def m_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.put(n.value, "None", "returns None")

    def m_Constant(self, n):
        if id(n) in self.doc:
            return
        v = n.value
        if isinstance(v, bool):
            self.put(n, repr(not v), "constant")
        elif isinstance(v, int):
            self.put(n, repr(v + 1), "constant")
        elif isinstance(v, str):
            self.put(n, repr(v + "X"), "constant")
        elif isinstance(v, bytes):
            self.put(n, repr(v + b"X"), "constant")

    def elements(self, n):
        if 2 <= len(n.elts) <= 8 and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            for i in range(len(n.elts)):
                t = ", ".join(self.text(v) for j, v in enumerate(n.elts) if j != i)
                o = {"List": "[%s]", "Set": "{%s}", "Tuple": "(%s,)"}[type(n).__name__]
                if isinstance(n, ast.Tuple) and not self.text(n).startswith("("):
                    continue
                self.put(n, o % t, "element dropped")

    m_List = m_Set = m_Tuple = elements

    def m_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if isinstance(f, ast.Attribute) and name in ("upper", "copy", "strip") and not n.args:
            self.put(n, self.text(f.value), "call dropped")
        elif name in ("dict", "list", "deepcopy", "bytes", "tuple", "sorted", "set", "_copy_value") and len(n.args) == 1 and not n.keywords:
            self.put(n, self.text(n.args[0]), "copy dropped")
        for i, k in enumerate(n.keywords):
            parts = [self.text(a) for a in n.args] + [("%s=" % q.arg if q.arg else "**") + self.text(q.value) for j, q in enumerate(n.keywords) if j != i]
            self.put(n, "%s(%s)" % (self.text(f), ", ".join(parts)), "keyword dropped")
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [self.text(x) for x in n.args]
            a[0], a[1] = a[1], a[0]
            a += [("%s=" % q.arg if q.arg else "**") + self.text(q.value) for q in n.keywords]
            self.put(n, "%s(%s)" % (self.text(f), ", ".join(a)), "arguments swapped")

    def m_BinOp(self, n):
        swap = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.BitXor: "|", ast.BitAnd: "|", ast.BitOr: "&",
                ast.LShift: ">>", ast.RShift: "<<", ast.Mod: "*"}
        if type(n.op) in swap:
            self.put(n, "%s %s %s" % (self.text(n.left), swap[type(n.op)], self.text(n.right)), "operator")
        if isinstance(n.op, ast.Add):
            self.put(n, self.text(n.left), "right operand dropped")
            self.put(n, self.text(n.right), "left operand dropped")

    def m_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.put(n, self.text(n.value), "slice dropped")

    def m_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, self.text(n.operand), "not dropped")


def mutants(files):
    for f in files:
        src = open(os.path.join("/repo", f)).read()
        v = Finder(src)
        v.visit(ast.parse(src))
        seen = set()
        for a, b, new, what, line, last in v.out:
            m = v.raw[:a] + new.encode() + v.raw[b:]
            if m in seen:
                continue
            seen.add(m)
            try:
                compile(m, f, "exec")
            except SyntaxError:
                continue
            yield {"file": f, "line": line, "last": last, "what": what, "old": v.raw[a:b].decode()[:200], "new": new[:200], "src": m.decode()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--frac", type=int, default=4, help="run one case in so many")
    ap.add_argument("--only", help="a file with earlier results: only its survivors")
    a = ap.parse_args()
    files = a.files.split(",") if a.files else sorted(
        subprocess.run(["git", "-C", "/repo", "ls-files", "pycose/*.py"], capture_output=True, text=True).stdout.split())
    ms = list(mutants(files))
    if a.only:
        want = {(d["file"], d["old"], d["new"], d["what"]) for d in map(json.loads, open(a.only)) if d["outcome"] == "survived"}
        ms = [m for m in ms if (m["file"], m["old"], m["new"], m["what"]) in want]
    done = set()
    if os.path.exists(a.out):
        done = {(d["file"], d["line"], d["old"], d["new"]) for d in map(json.loads, open(a.out))}
    ms = [m for m in ms if (m["file"], m["line"], m["old"], m["new"]) not in done]
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    print(len(ms), "mutants")
    base = tempfile.mkdtemp(prefix="mutate-")
    trace(os.path.dirname(os.path.abspath(a.out)))
    trees, lock, out = [], threading.Lock(), open(a.out, "a")
    for j in range(a.jobs):
        t = os.path.join(base, str(j), "repo")
        os.makedirs(os.path.dirname(t))
        subprocess.run(["cp", "-a", "/repo", t], check=True)
        trees.append(t)

    def one(m):
        with lock:
            t = trees.pop()
        t0 = time.time()
        p = os.path.join(t, m["file"])
        old = open(p).read()
        try:
            open(p, "w").write(m["src"])
            env = {**os.environ, "PYTHONPATH": t + ":/opt/vp/plugins", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-o", "addopts=", "-p", "no:cacheprovider", "-p", "stable_ids", "tests"], cwd=t, env=env,
                                   capture_output=True, text=True, timeout=200)
                killed = r.returncode != 0
            except subprocess.TimeoutExpired:
                killed = True
            res = "tests"
            if not killed:
                res = "survived"
                for c in related(m["file"], m["line"], m["last"]) or CHEAP[:16]:
                    r = subprocess.run(["./check", c, "quick", "--seed", "1"], cwd=ROOT, env={**os.environ, "PYCOSE_REPO": t, "MON_WORKERS": "1", "MON_FIRST": "1", "MON_FRAC": str(a.frac),
                                       "MON_EVIDENCE": os.path.dirname(t)}, capture_output=True, text=True, timeout=1500)
                    if "VIOLATION property=" in r.stdout:
                        res = c
                        break
        except Exception as e:
            res = "error %r" % e
        finally:
            open(p, "w").write(old)
        with lock:
            trees.append(t)
            d = {k: v for k, v in m.items() if k != "src"}
            d["outcome"], d["s"] = res, round(time.time() - t0, 1)
            out.write(json.dumps(d) + "\n")
            out.flush()

    try:
        with ThreadPoolExecutor(a.jobs) as ex:
            list(ex.map(one, ms))
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
