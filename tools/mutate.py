"""Development tool (never used by checks): small source mutants of demod, each
run against the checks whose quick tier executes the mutated line.

PBT_COVER=/tmp/cov python run.py CNN      (for every property, first)
python3 tools/mutate.py COVDIR OUT.jsonl [--per-func N] [--jobs J] [--only SUBSTR] [--seed S]
Each mutant lives in a scratch clone below /tmp/mut.*, removed at the end.
"""
import argparse
import ast
import collections
import concurrent.futures as cf
import glob
import json
import os
import queue
import random
import shutil
import subprocess
import tempfile

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"),
       ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "*"),
       ast.Pow: ("**", "*")}


def mutants(src, only_extra=False):
    """Yields (function, line, description, new source)."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def pos(l, c):
        return offs[l - 1] + c

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def sub(a, b, text):
        return (raw[:a] + text.encode() + raw[b:]).decode()

    out = []

    def between(left, right, old, new):
        a = seg(left)[1]
        b = seg(right)[0]
        mid = raw[a:b].decode()
        if mid.count(old) != 1:
            return None
        return sub(a, b, mid.replace(old, new))

    def visit(node, q, in_raise):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                for b in n.body:
                    wrap(b, q + [n.name], False)
                continue
            wrap(n, q, in_raise)

    def wrap(n, q, in_raise):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for b in n.body:
                wrap(b, q + [n.name], False)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.AnnAssign,)) and n.value is None:
            return
        name = ".".join(q)
        if q:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                t = type(n.ops[0])
                old = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
                       ast.Eq: "==", ast.NotEq: "!="}.get(t)
                if old:
                    s = between(n.left, n.comparators[0], old, CMP[t])
                    if s:
                        out.append((name, n.lineno, old + " -> " + CMP[t], s))
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                o, w = BIN[type(n.op)]
                if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) \
                        and not isinstance(n.left, ast.JoinedStr):
                    s = between(n.left, n.right, o, w)
                    if s:
                        out.append((name, n.lineno, o + " -> " + w, s))
            if isinstance(n, ast.BoolOp) and len(n.values) == 2:
                o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                s = between(n.values[0], n.values[1], o, w)
                if s:
                    out.append((name, n.lineno, o + " -> " + w, s))
            if isinstance(n, ast.UnaryOp):
                if isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                    a, b = seg(n)
                    c, d = seg(n.operand)
                    out.append((name, n.lineno, "drop unary",
                                sub(a, b, "(" + raw[c:d].decode() + ")")))
            if isinstance(n, ast.Constant):
                v = n.value
                a, b = seg(n)
                if isinstance(v, bool):
                    out.append((name, n.lineno, "flip bool", sub(a, b, str(not v))))
                elif isinstance(v, int):
                    out.append((name, n.lineno, "%s -> %s" % (v, v + 1), sub(a, b, str(v + 1))))
                elif isinstance(v, float):
                    w = v * 1.2 if v else 0.5
                    out.append((name, n.lineno, "%s -> %s" % (v, w), sub(a, b, repr(w))))
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and (
                    not isinstance(n, ast.Expr) or isinstance(n.value, ast.Call)):
                a, b = seg(n)
                out.append((name, n.lineno, "drop statement", sub(a, b, "pass")))
            if isinstance(n, ast.If):
                a, b = seg(n.test)
                out.append((name, n.lineno, "if False", sub(a, b, "False")))
            extra(n, name)
        visit(n, q, in_raise)

    SWAP = {"max": "min", "min": "max", "any": "all", "all": "any",
            "ceil": "floor", "floor": "ceil", "maximum": "minimum",
            "minimum": "maximum", "logical_and": "logical_or",
            "logical_or": "logical_and", "argmax": "argmin",
            "zeros_like": "ones_like", "zeros": "ones", "unique": "sort",
            "sum": "max", "cumsum": "sort", "mean": "median",
            "repeat": "resize", "tile": "repeat"}

    def extra(n, name):
        if not only_extra:
            return
        if isinstance(n, ast.Call):
            a, b = seg(n)
            f = n.func
            src_of = lambda m: raw[seg(m)[0]:seg(m)[1]].decode()
            if isinstance(f, ast.Attribute):
                if f.attr in ("copy", "deepcopy") and not n.keywords:
                    inner = src_of(n.args[0] if n.args else f.value)
                    out.append((name, n.lineno, "alias copy", sub(a, b, inner)))
                if f.attr in ("array", "asarray") and len(n.args) == 1:
                    out.append((name, n.lineno, "alias array", sub(
                        seg(f)[0], seg(f)[1], "np.asarray")))
                if f.attr in SWAP:
                    c, d = seg(f)
                    new = src_of(f.value) + "." + SWAP[f.attr]
                    out.append((name, n.lineno, "%s -> %s" % (
                        f.attr, SWAP[f.attr]), sub(c, d, new)))
            elif isinstance(f, ast.Name) and f.id in SWAP:
                c, d = seg(f)
                out.append((name, n.lineno, "swap " + f.id,
                            sub(c, d, SWAP[f.id])))
            elif isinstance(f, ast.Name) and f.id in ("list", "dict", "set",
                                                      "sorted") \
                    and len(n.args) == 1:
                out.append((name, n.lineno, "drop " + f.id,
                            sub(a, b, src_of(n.args[0]))))
            for k in n.keywords:
                c, d = seg(k)
                # a keyword falls back to its default
                text = raw[c:d].decode()
                at = raw[a:b].decode()
                new = at.replace(text + ", ", "").replace(", " + text, "")
                if new == at:
                    import re
                    new = re.sub(r",\s*" + re.escape(text), "", at)
                if new != at:
                    out.append((name, n.lineno, "drop keyword " + str(k.arg),
                                sub(a, b, new)))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd,
                                                          ast.BitOr)):
            o, w = ("&", "|") if isinstance(n.op, ast.BitAnd) else ("|", "&")
            s = between(n.left, n.right, o, w)
            if s:
                out.append((name, n.lineno, o + " -> " + w, s))
            for keep in (n.left, n.right):
                a, b = seg(n)
                c, d = seg(keep)
                out.append((name, n.lineno, "one side", sub(
                    a, b, "(" + raw[c:d].decode() + ")")))
        if isinstance(n, ast.BoolOp):
            for keep in n.values:
                a, b = seg(n)
                c, d = seg(keep)
                out.append((name, n.lineno, "one side", sub(
                    a, b, "(" + raw[c:d].decode() + ")")))
        if isinstance(n, ast.If):
            a, b = seg(n.test)
            out.append((name, n.lineno, "if True", sub(a, b, "True")))
        if isinstance(n, ast.IfExp):
            for keep in (n.body, n.orelse):
                a, b = seg(n)
                c, d = seg(keep)
                out.append((name, n.lineno, "one branch", sub(
                    a, b, "(" + raw[c:d].decode() + ")")))
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.value, ast.BinOp) and isinstance(
                n.value.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            t = raw[slice(*seg(n.targets[0]))].decode()
            l = raw[slice(*seg(n.value.left))].decode()
            r = raw[slice(*seg(n.value.right))].decode()
            o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*",
                 ast.Div: "/"}[type(n.value.op)]
            a, b = seg(n)
            pad = " " * n.col_offset
            if isinstance(n.value.left, (ast.Name, ast.Attribute)):
                out.append((name, n.lineno, "in place", sub(
                    a, b, "%s %s= (%s)\n%s%s = %s" % (
                        l, o, r, pad, t, l))))
        if isinstance(n, ast.AugAssign) and isinstance(
                n.target, (ast.Name, ast.Attribute, ast.Subscript)):
            t = raw[slice(*seg(n.target))].decode()
            v = raw[slice(*seg(n.value))].decode()
            a, b = seg(n)
            out.append((name, n.lineno, "augmented -> plain", sub(
                a, b, "%s = %s" % (t, v))))
            o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
                 ast.BitAnd: "&", ast.BitOr: "|"}.get(type(n.op))
            if o and isinstance(n.target, ast.Subscript):
                pass
        if isinstance(n, ast.Return) and n.value is not None and isinstance(
                n.value, ast.Tuple) and len(n.value.elts) > 1:
            a, b = seg(n.value)
            e = [raw[slice(*seg(x))].decode() for x in n.value.elts]
            out.append((name, n.lineno, "swap returns", sub(
                a, b, ", ".join([e[1], e[0]] + e[2:]))))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            sl = n.slice
            a, b = seg(n)
            v = raw[slice(*seg(n.value))].decode()
            out.append((name, n.lineno, "whole slice", sub(a, b, v)))

    for n in tree.body:
        wrap(n, [], False)
    if only_extra:
        basic = {m[:3] + (m[3],) for m in mutants(src)}
        out = [m for m in out if m not in basic]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cov")
    ap.add_argument("out")
    ap.add_argument("--per-func", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--only", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", default="0.4")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--extra", action="store_true")
    args = ap.parse_args()
    by = collections.defaultdict(lambda: collections.defaultdict(set))
    size = collections.Counter()
    for f in glob.glob(os.path.join(args.cov, "C*-*.json")):
        p = os.path.basename(f)[:3]
        for fn, l in json.load(open(f)):
            by[fn][l].add(p)
    for fn in by:
        for l in by[fn]:
            for p in by[fn][l]:
                size[p, fn] += 1
    rng = random.Random(args.seed)
    todo = []
    done = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["what"], r["idx"]))
    for root, _, fs in os.walk(os.path.join(args.repo, "demod")):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(root, f), args.repo)
            if not f.endswith(".py") or args.only not in rel or rel not in by:
                continue
            src = open(os.path.join(args.repo, rel), encoding="utf-8").read()
            per = collections.defaultdict(list)
            for i, (fn, line, what, new) in enumerate(mutants(src, args.extra)):
                if by[rel].get(line):
                    per[fn].append((rel, line, what, i, fn, new))
            for fn, ms in per.items():
                rng.shuffle(ms)
                todo += ms[:args.per_func]
    rng.shuffle(todo)
    todo = [t for t in todo if t[:4] not in done]
    print(len(todo), "mutants", flush=True)
    base = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    pool = queue.Queue()
    for j in range(args.jobs):
        d = os.path.join(base, str(j))
        os.makedirs(d)
        subprocess.run("tar -C %s --exclude=__pycache__ --exclude=.git -cf - . | tar -C %s -xf -"
                       % (args.repo, d), shell=True, check=True)
        pool.put(d)

    def run(m):
        rel, line, what, idx, fn, new = m
        d = pool.get()
        try:
            path = os.path.join(d, rel)
            orig = open(path, encoding="utf-8").read()
            try:
                compile(new, path, "exec")
            except SyntaxError:
                return None
            open(path, "w", encoding="utf-8").write(new)
            try:
                props = sorted(by[rel][line], key=lambda p: -size[p, rel])
                tried, killer = [], None
                for p in props[:7]:
                    r = subprocess.run(
                        ["/opt/venv/bin/python", os.path.join(HOME, "run.py"), p,
                         "--scale", args.scale, "--workers", "1"],
                        env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                    tried.append([p, r.returncode])
                    if r.returncode:
                        killer = p
                        break
                ln = new.splitlines()[line - 1].strip()
                return dict(file=rel, line=line, what=what, idx=idx, func=fn,
                            killer=killer, rc=tried[-1][1], tried=tried, text=ln[:120],
                            nprops=len(props))
            finally:
                open(path, "w", encoding="utf-8").write(orig)
        finally:
            pool.put(d)

    try:
        with cf.ThreadPoolExecutor(args.jobs) as ex, open(args.out, "a") as out:
            for r in ex.map(run, todo):
                if r:
                    out.write(json.dumps(r) + "\n")
                    out.flush()
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    main()
