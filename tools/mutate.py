"""Samples small syntactic changes of a source file and reports those that the monitors do not notice (run by hand).

usage: mutate.py FILE(relative to src/wax) PROP[,PROP...] [--n N] [--seed S] [--cases C]
Each mutant is bound over /repo/src/wax/FILE in a private mount namespace.
"""

import argparse
import ast
import os
import random
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
        ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*",
       ast.BitAnd: "|", ast.BitOr: "&", ast.MatMult: "*"}
NAMES = {"any": "all", "all": "any", "max": "min", "min": "max", "zeros": "ones", "ones": "zeros", "zeros_like":
         "ones_like", "ones_like": "zeros_like", "isnan": "isfinite", "isfinite": "isnan", "maximum": "minimum",
         "minimum": "maximum", "logical_or": "logical_and", "logical_and": "logical_or", "append": "count",
         "floor": "ceil", "mean": "sum", "sum": "mean", "nanmean": "mean", "pop": "get"}
SKIP_FN = {"__repr__", "__str__", "main"}


class Muts(ast.NodeVisitor):
    def __init__(self, src, only):
        self.src, self.out, self.only, self.fn = src, [], only, []

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def add(self, node, new, what):
        if self.only and not any(f in self.only for f in self.fn):
            return
        self.out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, what, ".".join(self.fn)))

    def visit_FunctionDef(self, n):
        if n.name in SKIP_FN:
            return
        self.fn.append(n.name)
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        self.body(n.body)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.body(n.body)
        self.fn.pop()

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Raise(self, n):
        pass

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_JoinedStr(self, n):
        pass

    def visit_Expr(self, n):
        s = self.seg(n)
        if s.startswith(("print", "warnings", "logger", "logging", "super()")):
            return
        self.add(n, "pass", "delete statement")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delete statement")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, "pass", "delete statement")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, f"(not ({self.seg(n.test)}))", "negate")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f"({self.seg(n.orelse)})", "else branch")
        self.add(n, f"({self.seg(n.body)})", "if branch")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.add(n, f"({self.seg(n.left)} {SWAP[type(n.ops[0])]} {self.seg(n.comparators[0])})", "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN:
            self.add(n, f"(({self.seg(n.left)}) {BIN[type(n.op)]} ({self.seg(n.right)}))", "binop")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join(f"({self.seg(v)})" for v in n.values) + ")", "boolop")
        for v in n.values:
            self.add(n, f"({self.seg(v)})", "one operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if not isinstance(n.operand, ast.Constant):
            self.add(n, f"({self.seg(n.operand)})", "drop unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, repr(not v), "flip")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "plus one")
            if v:
                self.add(n, str(v - 1), "minus one")
        elif isinstance(v, float):
            self.add(n, repr(v * 2 + 0.5), "float")

    def visit_Slice(self, n):
        for part in (n.lower, n.upper):
            if part is not None:
                self.visit(part)

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in NAMES:
            s = self.seg(f)
            self.add(f, s[: len(s) - len(name)] + NAMES[name], "rename")
        if name == "where" and len(n.args) == 3 or name == "select" and len(n.args) == 3:
            a, b, c = (self.seg(v) for v in n.args)
            self.add(n, f"{self.seg(f)}({a}, {c}, {b})", "swap where")
            self.add(n, f"({b})", "where true")
            self.add(n, f"({c})", "where false")
        if name == "cond" and len(n.args) >= 3:
            r = [self.seg(v) for v in n.args]
            r[1], r[2] = r[2], r[1]
            self.add(n, f"{self.seg(f)}({', '.join(r)})", "swap cond")
        for k in n.keywords:
            if k.arg:
                r = [self.seg(v) for v in n.args] + [
                    f"{q.arg}={self.seg(q.value)}" if q.arg else f"**{self.seg(q.value)}" for q in n.keywords if q is not k]
                self.add(n, f"{self.seg(f)}({', '.join(r)})", f"drop {k.arg}")
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            self.add(n, f"{self.seg(f)}({self.seg(n.args[1])}, {self.seg(n.args[0])})", "swap args")
        if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)) and name not in (
                "len", "range", "str", "list", "tuple", "dict", "isinstance"):
            self.add(n, f"({self.seg(n.args[0])})", "drop call")
        self.generic_visit(n)


def apply(src, m):
    l0, c0, l1, c1, new, *_ = m
    lines = src.splitlines(keepends=True)
    head = "".join(lines[: l0 - 1]) + lines[l0 - 1].encode()[:c0].decode()
    tail = lines[l1 - 1].encode()[c1:].decode() + "".join(lines[l1:])
    return head + new + tail


def run(path, text, props, cases, tag):
    tmp = f"/tmp/mut_{tag}.py"
    open(tmp, "w").write(text)
    try:
        for p in props:
            for extra in [["--cases", str(cases)] if cases else []]:
                cmd = f"mount --bind {tmp} {path}; cd {ROOT}; exec bash ./check.sh {p} --dry --stop {' '.join(extra)}"
                r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True)
                if r.returncode == 1:
                    return "killed " + p
                if r.returncode not in (0, 1):
                    return f"exit {r.returncode} " + p + r.stdout[-300:]
        return "SURVIVED"
    finally:
        os.unlink(tmp)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("file")
    a.add_argument("props")
    a.add_argument("--n", type=int, default=10)
    a.add_argument("--seed", type=int, default=0)
    a.add_argument("--cases", type=int, default=0)
    a.add_argument("--only", default="")
    a.add_argument("--list", action="store_true")
    a = a.parse_args()
    path = "/repo/src/wax/" + a.file
    src = open(path).read()
    v = Muts(src, set(filter(None, a.only.split(","))))
    v.body(ast.parse(src).body)
    muts = []
    for m in v.out:
        t = apply(src, m)
        try:
            compile(t, "m", "exec")
        except SyntaxError:
            continue
        if t != src:
            muts.append((m, t))
    random.Random(a.seed).shuffle(muts)
    print(f"{a.file}: {len(muts)} mutants", flush=True)
    kill = 0
    for m, t in muts[: a.n]:
        what = f"{a.file}:{m[0]} [{m[6]}] {m[5]}: {src.splitlines()[m[0]-1].strip()[:90]} -> {m[4][:90]!r}"
        if a.list:
            print(what)
            continue
        r = run(path, t, a.props.split(","), a.cases, os.getpid())
        kill += r.startswith("killed")
        if not r.startswith("killed"):
            print(f"{r}  {what}", flush=True)
    print(f"{a.file}: {kill}/{min(a.n, len(muts))} noticed", flush=True)


main()
