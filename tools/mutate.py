#!/usr/bin/env python3
"""Measures the checks with syntactic mutants of pycaption (development tool; no registered command uses it).

  mutate.py gen  OUT.json [file ...]      list the mutants
  mutate.py test OUT.json                 keep those that compile and pass the stable tests (scratch copies under /tmp/mut)
  mutate.py check OUT.json [N/M]          run the checks against the survivors, stop at the first that reports it
  mutate.py show OUT.json                 print the mutants no check reported
"""
import ast
import json
import os
import shutil
import subprocess
import threading
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
FILES = ["base.py", "geometry.py", "microdvd.py", "sami.py", "srt.py", "utils.py", "webvtt.py", "dfxp/base.py", "dfxp/extras.py",
         "scc/__init__.py", "scc/specialized_collections.py", "scc/state_machines.py", "__init__.py"]
CHECKS = {
    "base.py": "C19 C02 C08 C03 C11 C12 C14 C07 C17", "geometry.py": "C18 C13 C12 C05 C08", "microdvd.py": "C01 C02 C03 C04 C08 C20",
    "sami.py": "C01 C02 C03 C04 C11 C14 C08 C13 C20 C12", "srt.py": "C01 C02 C03 C04 C08 C20", "utils.py": "C04 C01 C03 C07 C08 C02 C05",
    "webvtt.py": "C01 C02 C03 C04 C12 C11 C13 C08 C20 C14", "dfxp/base.py": "C01 C02 C03 C04 C07 C12 C11 C14 C13 C08 C20",
    "dfxp/extras.py": "C07 C02 C03 C11 C14 C13 C20 C12", "scc/__init__.py": "C05 C06 C16 C15 C17 C20 C11",
    "scc/specialized_collections.py": "C05 C06 C16 C15 C11", "scc/state_machines.py": "C05 C16 C06 C15", "__init__.py": "C20"}
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not",
        ast.IsNot: "is"}
OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "//")}
STRIP = {"strip", "lower", "upper", "rstrip", "lstrip", "copy", "replace"}


class Gen(ast.NodeVisitor):
    def __init__(self, src, fn):
        self.src, self.fn, self.out = src, fn, []
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln.encode()))
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, z = self.pos(n)
        return self.b[a:z].decode()

    def add(self, n, new, op):
        a, z = self.pos(n)
        self.out.append({"file": self.fn, "line": n.lineno, "a": a, "z": z, "new": new, "op": op, "old": self.b[a:z].decode()})

    def visit_Raise(self, n):
        self.add(n, "pass", "drop raise")

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.visit(v.value)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, "pass", "drop call")
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.add(n, "pass", "drop assign")
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "drop augassign")
        self.visit(n.value)

    def visit_Continue(self, n):
        self.add(n, "break", "continue->break")
        self.add(n, "pass", "drop continue")

    def visit_Break(self, n):
        self.add(n, "continue", "break->continue")
        self.add(n, "pass", "drop break")

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)
        else:
            self.add(n, "pass", "drop return")

    def cond(self, t):
        self.add(t, "True", "cond True")
        self.add(t, "False", "cond False")

    def visit_If(self, n):
        self.cond(n.test)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.cond(n.test)
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for t in n.ifs:
            self.cond(t)
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            o = type(n.ops[0])
            l, r = self.seg(n.left), self.seg(n.comparators[0])
            self.add(n, f"({l} {SWAP[o]} {r})", f"{OPS[o]} -> {SWAP[o]}")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        w = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + w.join(f"({self.seg(v)})" for v in n.values) + ")", "and/or")
        for i in range(len(n.values)):
            k = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + k.join(f"({self.seg(v)})" for j, v in enumerate(n.values) if j != i) + ")", f"drop operand {i}")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, f"({self.seg(n.operand)})", "drop not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not any(isinstance(x, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(x, "value", ""), str) for x in (n.left, n.right)):
            _, new = BIN[type(n.op)]
            self.add(n, f"(({self.seg(n.left)}) {new} ({self.seg(n.right)}))", "binop " + new)
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "bool")
        elif isinstance(v, (int, float)):
            self.add(n, repr(v + 1), "const +1")
            self.add(n, f"({v - 1!r})", "const -1")
        elif isinstance(v, str) and self.seg(n)[:1] in "'\"" and len(v) < 40:
            self.add(n, '""' if v else '"~"', "string")

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in STRIP:
            self.add(n, self.seg(n.func.value), "drop ." + n.func.attr)
        if isinstance(n.func, ast.Name) and n.func.id in ("deepcopy", "list", "sorted", "max", "min", "int", "round", "str", "set") and n.args:
            self.add(n, "(" + self.seg(n.args[0]) + ")", "drop " + n.func.id)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "warn":
            return
        for k in n.keywords:
            self.add(k.value, "None", "kw None") if not isinstance(k.value, ast.Constant) else None
        self.generic_visit(n)

    def visit_For(self, n):
        self.add(n.iter, f"list({self.seg(n.iter)})[1:]", "iter [1:]")
        self.add(n.iter, f"list({self.seg(n.iter)})[:-1]", "iter [:-1]")
        self.add(n.iter, f"list({self.seg(n.iter)})[::-1]", "iter reversed")
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "detect_foo", "__getslice__"):
            return
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        for s in n.body:
            self.visit(s)


def gen(files):
    out = []
    for fn in files:
        src = open(f"{REPO}/pycaption/{fn}").read()
        g = Gen(src, fn)
        g.visit(ast.parse(src))
        seen = set()
        for m in g.out:
            key = (m["a"], m["z"], m["new"])
            if key in seen or m["new"] == m["old"]:
                continue
            seen.add(key)
            try:
                ast.parse((g.b[:m["a"]] + m["new"].encode() + g.b[m["z"]:]).decode())
            except SyntaxError:
                continue
            out.append(m)
    for i, m in enumerate(out):
        m["id"] = i
    return out


def apply(m, root):
    p = f"{root}/pycaption/{m['file']}"
    b = open(f"{REPO}/pycaption/{m['file']}", "rb").read()
    open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["z"]:])


def restore(m, root):
    shutil.copyfile(f"{REPO}/pycaption/{m['file']}", f"{root}/pycaption/{m['file']}")


def pool(n):
    q = Queue()
    for i in range(n):
        r = f"/tmp/mut/{i}"
        shutil.rmtree(r, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, r], check=True)
        s = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {r}").replace("--timeout=300", "--timeout=20 -x")
        open(r + ".sh", "w").write(s)
        q.put(r)
    return q


def test(ms):
    b = json.load(open("/opt/vp/BASELINE.json"))
    base = set(b.get("stable", []) or b.get("passed", []))
    q = pool(8)

    def one(m):
        r = q.get()
        try:
            apply(m, r)
            try:
                subprocess.run(["bash", r + ".sh", r + ".json"], capture_output=True, timeout=200)
                ok = base <= set(json.load(open(r + ".json")).get("passed", []))
            except Exception:
                ok = False
            m["survives"] = ok
        finally:
            restore(m, r)
            q.put(r)
    with ThreadPoolExecutor(8) as ex:
        for i, _ in enumerate(ex.map(one, ms)):
            if i % 200 == 0:
                print(i, flush=True)


def check(ms, secs, save):
    """every surviving mutant against the short, fail-fast run of the checks of its file (tools/fast.py), 8 at a time"""
    q = pool(8)
    v = "/tmp/mut/verif"
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    todo = [m for m in ms if m.get("survives") and "killed" not in m]
    n = {m["file"]: sum(x["file"] == m["file"] for x in todo) for m in todo}
    todo.sort(key=lambda m: n[m["file"]])
    lock = threading.Lock()

    def one(m):
        root = q.get()
        try:
            apply(m, root)
            try:
                r = subprocess.run(["/opt/venv/bin/python", "tools/fast.py", secs] + CHECKS[m["file"]].split(), cwd=v, capture_output=True, text=True,
                                   env={**os.environ, "RV_REPO": root, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}, timeout=900)
                hit = [x for x in r.stdout.splitlines() if x.startswith("HIT")]
                m["killed"] = hit[0].split()[1] if hit else None
                m["msg"] = hit[0] if hit else ""
                if r.returncode not in (0, 1) or r.returncode == 1 and not hit:
                    m["msg"] = "ERROR " + r.stderr[-300:]
            except subprocess.TimeoutExpired:
                m["killed"], m["msg"] = "timeout", ""
        finally:
            restore(m, root)
            q.put(root)
        with lock:
            print(m["id"], m["file"], m["line"], m["op"], "->", m["killed"], m["msg"][:60], flush=True)
    with ThreadPoolExecutor(8) as ex:
        for i, _ in enumerate(ex.map(one, todo)):
            if i % 50 == 49:
                save()


def main():
    cmd, path = sys.argv[1:3]
    if cmd == "gen":
        ms = gen(sys.argv[3:] or FILES)
        json.dump(ms, open(path, "w"))
        print(len(ms), "mutants")
        return
    ms = json.load(open(path))
    if cmd == "test":
        test(ms)
        json.dump(ms, open(path, "w"))
        print(sum(m["survives"] for m in ms), "survive the tests")
    elif cmd == "check":
        def save():
            json.dump(ms, open(path, "w"))
        check(ms, sys.argv[3] if len(sys.argv) > 3 else "5", save)
        save()
    elif cmd == "show":
        done = [m for m in ms if "killed" in m]
        print(len(done), "checked,", sum(1 for m in done if m["killed"]), "reported")
        for m in done:
            if not m["killed"]:
                print(f"{m['file']}:{m['line']} [{m['op']}] {m['old'][:110]!r} -> {m['new'][:110]!r} {m['msg'][:80]}")


if __name__ == "__main__":
    main()
