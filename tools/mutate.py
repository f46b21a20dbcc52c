"""Search for gaps: small changes to the code that no check notices

    python3 tools/mutate.py FILE CHECKS N [--seed S] [--runs R] [--func NAME]

Makes N random small changes to FILE (of a copy of DST_REPO or /repo), runs the
checks (P01,P02) with R runs each on every one, and lists those not noticed.
Never touches /repo.
"""
import argparse
import ast
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP_FUNCS = {"__repr__", "__str__"}


def lines_of(src):
    return src.splitlines(keepends=True)


def segment(src_lines, node):
    return node.lineno - 1, node.end_lineno


def is_log(stmt):
    s = ast.unparse(stmt)
    return (".log." in s and isinstance(stmt, ast.Expr)) or s.startswith("assert ")


def mutants(src):
    """Yield (description, new source)"""
    tree = ast.parse(src)
    sl = lines_of(src)
    out = []

    def repl_expr(node, new, what):
        # replace the text of an expression that lies on one line
        if node.lineno != node.end_lineno:
            return
        i = node.lineno - 1
        raw = sl[i].encode()
        line = raw[: node.col_offset].decode() + new + raw[node.end_col_offset:].decode()
        out.append((f"{i+1}: {what}", "".join(sl[:i] + [line] + sl[i + 1:])))

    def visit_body(body, fname):
        for k, st in enumerate(body):
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if is_log(st):
                continue
            a, b = segment(sl, st)
            indent = " " * st.col_offset
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import,
                                   ast.ImportFrom, ast.Raise, ast.Pass, ast.Return)):
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete,
                                   ast.Continue, ast.Break)):
                    out.append((f"{a+1}: {fname} delete `{ast.unparse(st)[:60]}`",
                                "".join(sl[:a] + [indent + "pass\n"] + sl[b:])))
            if isinstance(st, ast.Return) and st.value is not None:
                out.append((f"{a+1}: {fname} return None",
                            "".join(sl[:a] + [indent + "return None\n"] + sl[b:])))
            if isinstance(st, ast.With):
                # keep the body, drop the with
                body_lines = sl[st.body[0].lineno - 1:b]
                out.append((f"{a+1}: {fname} drop with `{ast.unparse(st.items[0])[:40]}`",
                            "".join(sl[:a] + [indent + "if True:\n"] + body_lines
                                    + sl[b:])))
            if k + 1 < len(body) and not isinstance(
                    st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                nx = body[k + 1]
                if not isinstance(nx, (ast.FunctionDef, ast.ClassDef)) and not is_log(nx):
                    c, d = segment(sl, nx)
                    out.append((f"{a+1}: {fname} swap with next",
                                "".join(sl[:a] + sl[c:d] + sl[b:c] + sl[a:b] + sl[d:])))

    class V(ast.NodeVisitor):
        def __init__(self):
            self.f = []

        def visit_FunctionDef(self, node):
            if node.name in SKIP_FUNCS:
                return
            self.f.append(node.name)
            self.generic_visit(node)
            self.f.pop()

        def generic_visit(self, node):
            if self.f:
                for field in ("body", "orelse", "finalbody"):
                    b = getattr(node, field, None)
                    if isinstance(b, list) and b:
                        visit_body(b, self.f[-1])
                if isinstance(node, (ast.If, ast.While)) and not isinstance(
                        node.test, ast.Constant):
                    t = ast.unparse(node.test)
                    repl_expr(node.test, f"not ({t})", f"{self.f[-1]} negate `{t[:50]}`")
                    if isinstance(node, ast.If):
                        repl_expr(node.test, "True", f"{self.f[-1]} always `{t[:50]}`")
                        repl_expr(node.test, "False", f"{self.f[-1]} never `{t[:50]}`")
                if isinstance(node, ast.BoolOp):
                    for v in node.values:
                        rest = [ast.unparse(x) for x in node.values if x is not v]
                        op = " and " if isinstance(node.op, ast.And) else " or "
                        repl_expr(node, "(" + op.join(rest) + ")",
                                  f"{self.f[-1]} drop `{ast.unparse(v)[:40]}`")
                if isinstance(node, ast.Compare) and len(node.ops) == 1:
                    m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
                         ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
                         ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
                    new = m.get(type(node.ops[0]))
                    if new:
                        repl_expr(node, f"{ast.unparse(node.left)} {new} "
                                  f"{ast.unparse(node.comparators[0])}",
                                  f"{self.f[-1]} compare {new} `{ast.unparse(node)[:40]}`")
                if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
                    new = "-" if isinstance(node.op, ast.Add) else "+"
                    repl_expr(node, f"{ast.unparse(node.left)} {new} "
                              f"{ast.unparse(node.right)}", f"{self.f[-1]} arith {new}")
                if isinstance(node, ast.Constant) and node.lineno:
                    if node.value is True or node.value is False:
                        repl_expr(node, str(not node.value), f"{self.f[-1]} flip const")
                    elif isinstance(node.value, int) and node.value in (0, 1, -1):
                        repl_expr(node, str(node.value + 1), f"{self.f[-1]} const+1")
            super().generic_visit(node)

    V().visit(tree)
    seen, good = set(), []
    for what, new in out:
        if new in seen or new == src:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        good.append((what, new))
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("n", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--runs", type=int, default=400)
    ap.add_argument("--func")
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    ap.add_argument("--tests", default="")
    args = ap.parse_args()
    repo = os.environ.get("DST_REPO", "/repo")
    tmp = tempfile.mkdtemp(prefix="mutate-")
    tree = os.path.join(tmp, "r")
    subprocess.check_call(["cp", "-a", repo, tree])
    path = os.path.join(tree, args.file)
    src = open(path).read()
    ms = mutants(src)
    if args.func:
        ms = [m for m in ms if f" {args.func} " in m[0]]
    rng = random.Random(args.seed)
    rng.shuffle(ms)
    print(f"{args.file}: {len(ms)} mutants possible, trying {min(args.n, len(ms))}", flush=True)
    env = dict(os.environ, DST_REPO=tree, DST_REPLAY_DIR=tmp + "/rep",
               PYTHONDONTWRITEBYTECODE="1")
    survived = 0
    for what, new in ms[: args.n]:
        open(path, "w").write(new)
        status = "SURVIVED"
        for chk in args.checks.split(","):
            try:
                r = subprocess.run(
                    ["/opt/venv/bin/python", "-m", "dst.check", chk, "--runs",
                     str(args.runs), "--no-minimise", "--budget", "120", "--workers",
                     os.environ.get("WORKERS", "8")],
                    cwd=HERE, env=env, capture_output=True, text=True, timeout=400)
                rc, txt = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, txt = "timeout", ""
            if rc == 1:
                line = [x for x in txt.splitlines() if "broken in" in x]
                status = f"caught by {chk}: {line[0].split(':')[-1].strip() if line else ''}"
                break
            if rc != 0:
                status = f"rc={rc} {chk} " + txt.strip().splitlines()[-1][:80] if txt.strip() else f"rc={rc}"
                break
        if status == "SURVIVED" and args.tests:
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-o", "addopts=",
                 "-p", "no:cacheprovider"] + args.tests.split(","),
                cwd=tree, env=dict(env, PYTHONPATH=tree), capture_output=True, text=True)
            if r.returncode:
                status = "repo tests catch it"
        if status == "SURVIVED":
            survived += 1
            diff = "".join(difflib.unified_diff(
                lines_of(src), lines_of(new), n=2))
            with open(args.out, "a") as f:
                f.write(json.dumps({"file": args.file, "what": what,
                                    "checks": args.checks, "diff": diff}) + "\n")
        print(f"  {status:40s} {what}", flush=True)
    open(path, "w").write(src)
    shutil.rmtree(tmp)
    print(f"{args.file}: {survived} survived", flush=True)


if __name__ == "__main__":
    main()
