""" Development aid: which small changes of a module do checks not notice?

python3-vt tools/mutate.py run MODULE CHECK... [--jobs N] [--out FILE]
    [--only REGEX] [--every N]

Changes are made to the syntax tree while the module is loaded, so no file is
touched.  Survivors are listed with their source line; whether they break a
property (and a check is to be strengthened) or are equivalent is for a
person to say.
"""
import argparse
import ast
import copy
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import loader  # noqa: E402

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
        ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And,
        ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult}
TALK = re.compile(r"^(self\.)?_?(logger|logging|warnings|plt|parser)\b|print")


def text_of(node):
    return ast.unparse(node)


class Sites(ast.NodeVisitor):
    """ [(description, function changing the node in place)] """
    def __init__(self):
        self.found = []
        self.where = []

    def add(self, node, what, change):
        self.found.append((getattr(node, "lineno", 0), ".".join(self.where),
                           what, change))

    def visit_FunctionDef(self, node):
        self.where.append(node.name)
        for one in node.args.defaults:
            self.visit(one)
        self.block(node)
        self.where.pop()

    def visit_ClassDef(self, node):
        self.where.append(node.name)
        self.block(node)
        self.where.pop()

    def block(self, node):
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if not isinstance(stmts, list):
                continue
            for index, stmt in enumerate(stmts):
                self.statement(stmts, index, stmt)
        for handler in getattr(node, "handlers", []):
            self.block(handler)

    def statement(self, stmts, index, stmt):
        def drop():
            stmts[index] = ast.copy_location(ast.Pass(), stmt)
        if isinstance(stmt, ast.Expr):
            if isinstance(stmt.value, ast.Constant) or \
                    TALK.match(text_of(stmt)):
                return
            self.add(stmt, "drop: " + text_of(stmt), drop)
        elif isinstance(stmt, ast.Raise):
            self.add(stmt, "drop: " + text_of(stmt), drop)
            return
        elif isinstance(stmt, (ast.Import, ast.ImportFrom)):
            return
        elif isinstance(stmt, ast.AugAssign):
            self.add(stmt, "drop: " + text_of(stmt), drop)
            self.swap_op(stmt)
        elif isinstance(stmt, ast.Assign) and not isinstance(
                stmt.targets[0], ast.Name):
            self.add(stmt, "drop: " + text_of(stmt), drop)
        elif isinstance(stmt, (ast.Continue, ast.Break)):
            self.add(stmt, "drop: " + text_of(stmt), drop)
        elif isinstance(stmt, ast.If):
            if "__main__" in text_of(stmt.test):
                return

            def negate():
                stmt.test = ast.copy_location(ast.UnaryOp(
                    ast.Not(), stmt.test), stmt.test)
            self.add(stmt, "negate: if " + text_of(stmt.test), negate)
        if isinstance(stmt, (ast.FunctionDef, ast.ClassDef)):
            self.visit(stmt)
            return
        for field, value in ast.iter_fields(stmt):
            if field in ("body", "orelse", "finalbody", "handlers"):
                continue
            for one in value if isinstance(value, list) else [value]:
                if isinstance(one, ast.AST):
                    self.visit(one)
        self.block(stmt)

    def swap_op(self, node):
        new = SWAP.get(type(node.op))
        if new is None:
            return

        def change():
            node.op = new()
        self.add(node, "%s -> %s: %s" % (
            type(node.op).__name__, new.__name__, text_of(node)), change)

    def visit_BinOp(self, node):
        text = isinstance(node.left, ast.Constant) and \
            isinstance(node.left.value, str) or \
            isinstance(node.right, ast.Constant) and \
            isinstance(node.right.value, str)
        if not text:
            self.swap_op(node)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        self.swap_op(node)
        self.generic_visit(node)

    def visit_Compare(self, node):
        new = SWAP.get(type(node.ops[0]))
        if new is not None:
            def change():
                node.ops[0] = new()
            self.add(node, "%s -> %s: %s" % (
                type(node.ops[0]).__name__, new.__name__, text_of(node)),
                change)
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.Not, ast.USub)):
            def change():
                node.op = ast.UAdd() if isinstance(node.op, ast.USub) \
                    else node.op
                if isinstance(node.op, ast.Not):
                    node.operand = ast.copy_location(ast.UnaryOp(
                        ast.Not(), node.operand), node.operand)
            self.add(node, "without operator: " + text_of(node), change)
        self.generic_visit(node)

    def visit_Constant(self, node):
        value = node.value
        if isinstance(value, bool):
            def change():
                node.value = not value
        elif isinstance(value, (int, float)):
            def change():
                node.value = value + 1
        else:
            return
        self.add(node, "constant %r changed" % (value,), change)

    def visit_Call(self, node):
        name = text_of(node.func)
        if TALK.match(name):
            return
        if name in ("copy.copy", "copy.deepcopy", "numpy.copy") and node.args:
            def same():
                node.func = ast.copy_location(ast.Lambda(
                    args=ast.arguments(posonlyargs=[], args=[ast.arg("x")],
                                       kwonlyargs=[], kw_defaults=[],
                                       defaults=[]),
                    body=ast.Name("x", ast.Load())), node.func)
            self.add(node, "no copy: " + text_of(node), same)
        if name == "copy.deepcopy":
            def shallow():
                node.func.attr = "copy"
            self.add(node, "shallow: " + text_of(node), shallow)
        for keyword in node.keywords:
            def change(keyword=keyword):
                node.keywords.remove(keyword)
            self.add(node, "without %s=: %s" % (keyword.arg, text_of(node)),
                     change)
        self.generic_visit(node)


PAIRS = [("low", "high"), ("lower", "upper"), ("min", "max"),
         ("axis1", "axis2"), ("dimension1", "dimension2"), 
         ("prior", "sigma"), ("observed", "expected"), ("mc", "reco"),
         ("spectra_pars", "global_pars"), ("pos", "mcPos"),
         ("_fit_config", "_spectra_config"), ("penalty", "stat"),
         ("best_fits", "penalty_terms"), ("_best_fit", "_penalty_term"),
         ("stats", "penalty_terms"), ("name", "dim"), ("signal", "data"),
         ("get_low", "get_high"), ("_floating_pars", "_fixed_pars"),
         ("row", "col")]
PARTNER = {}
for _a, _b in PAIRS:
    PARTNER.setdefault(_a, _b)
    PARTNER.setdefault(_b, _a)
    PARTNER.setdefault("_" + _a, "_" + _b)
    PARTNER.setdefault("_" + _b, "_" + _a)
UNWRAP = ("float", "int", "str", "list", "tuple", "abs", "min", "max",
          "sorted", "reversed", "set", "dict", "bool", "numpy.array",
          "numpy.fabs", "numpy.abs", "numpy.rint", "numpy.ceil",
          "numpy.absolute", "numpy.sum", "numpy.sqrt", "numpy.log",
          "os.path.basename", "os.path.abspath", "os.path.join",
          "os.path.splitext", "OrderedDict", "collections.OrderedDict")


class More(Sites):
    """ Further kinds of changes. """
    def visit_FunctionDef(self, node):
        self.known = set(a.arg for a in node.args.args)
        Sites.visit_FunctionDef(self, node)

    def statement(self, stmts, index, stmt):
        here = len(self.found)
        if isinstance(stmt, ast.Assign) and isinstance(
                stmt.targets[0], ast.Name) and self.where:
            name = stmt.targets[0].id
            if name in getattr(self, "known", ()):
                def drop():
                    stmts[index] = ast.copy_location(ast.Pass(), stmt)
                self.add(stmt, "drop: " + text_of(stmt), drop)
            elif hasattr(self, "known"):
                self.known.add(name)
        if isinstance(stmt, ast.AugAssign):
            def plain():
                stmts[index] = ast.copy_location(ast.Assign(
                    [stmt.target], stmt.value), stmt)
            self.add(stmt, "not added: " + text_of(stmt), plain)
        if isinstance(stmt, (ast.If, ast.While)) and \
                "__main__" not in text_of(stmt.test):
            if isinstance(stmt, ast.If):
                for value in (True, False):
                    def fixed(value=value):
                        stmt.test = ast.copy_location(ast.Constant(value),
                                                      stmt.test)
                    self.add(stmt, "always %s: if %s" % (
                        value, text_of(stmt.test)), fixed)
        if isinstance(stmt, ast.For):
            if not isinstance(stmt.body[-1], (ast.Break, ast.Return)):
                def once():
                    stmt.body.append(ast.copy_location(ast.Break(), stmt))
                self.add(stmt, "once: for %s in %s" % (
                    text_of(stmt.target), text_of(stmt.iter)), once)
            for part, what in ((slice(1, None), "1:"),
                               (slice(None, -1), ":-1")):
                def less(part=part):
                    stmt.iter = ast.copy_location(ast.parse(
                        "list(%s)[%s]" % (text_of(stmt.iter),
                                          "1:" if part.start else ":-1"),
                        mode="eval").body, stmt.iter)
                self.add(stmt, "[%s]: for %s in %s" % (
                    what, text_of(stmt.target), text_of(stmt.iter)), less)
            for flip in ("reversed", ):
                def order():
                    stmt.iter = ast.copy_location(ast.parse(
                        "list(%s)[::-1]" % text_of(stmt.iter),
                        mode="eval").body, stmt.iter)
                self.add(stmt, "reversed: for %s in %s" % (
                    text_of(stmt.target), text_of(stmt.iter)), order)
        if isinstance(stmt, ast.Return) and stmt.value is not None:
            def nothing():
                stmt.value = None
            self.add(stmt, "returns nothing: " + text_of(stmt), nothing)
        after = self.found[here:]
        del self.found[here:]
        Sites.statement(self, stmts, index, stmt)
        # only what this class adds
        self.found[here:] = after + [
            f for f in self.found[here:] if f[2].startswith("more ") or
            any(f[2].startswith(k) for k in self.KINDS)]

    KINDS = ("not added", "always", "once", "[", "reversed", "returns",
             "unwrapped", "swapped", "partner", "operand", "slice")

    def swap_op(self, node):
        pass

    visit_UnaryOp = visit_Compare = visit_Constant = visit_BinOp = \
        ast.NodeVisitor.generic_visit

    def visit_BoolOp(self, node):
        for i in range(len(node.values)):
            def change(i=i):
                node.values[i] = ast.copy_location(ast.Constant(isinstance(
                    node.op, ast.And)), node)
            self.add(node, "operand %d left out: %s" % (i, text_of(node)),
                     change)
        self.generic_visit(node)

    def visit_Slice(self, node):
        for field in ("lower", "upper", "step"):
            if getattr(node, field) is not None:
                def change(field=field):
                    setattr(node, field, None)
                self.add(node, "slice without %s: %s" % (
                    field, text_of(node)), change)
        self.generic_visit(node)

    def visit_Attribute(self, node):
        if node.attr in PARTNER:
            def change():
                node.attr = PARTNER[node.attr]
            self.add(node, "partner: " + text_of(node), change)
        self.generic_visit(node)

    def visit_Name(self, node):
        if node.id in PARTNER and isinstance(node.ctx, ast.Load):
            def change():
                node.id = PARTNER[node.id]
            self.add(node, "partner: " + text_of(node), change)

    def visit_Call(self, node):
        name = text_of(node.func)
        if TALK.match(name):
            return
        if name in UNWRAP and node.args:
            for i in range(len(node.args)):
                def bare(i=i):
                    value = node.args[i]
                    node.func = ast.copy_location(ast.Lambda(
                        args=ast.arguments(
                            posonlyargs=[], args=[ast.arg("x")],
                            kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=ast.Name("x", ast.Load())), node.func)
                    node.args, node.keywords = [value], []
                self.add(node, "unwrapped %d: %s" % (i, text_of(node)), bare)
        if len(node.args) > 1 and name not in ("isinstance", "hasattr",
                                               "getattr", "issubclass"):
            def swap():
                node.args[0], node.args[1] = node.args[1], node.args[0]
            self.add(node, "swapped: " + text_of(node), swap)
        self.generic_visit(node)


def _coarse(value):
    import numpy
    if isinstance(value, float) and value and abs(value) < 1e300:
        return float("%.5g" % value)
    if isinstance(value, numpy.ndarray) and value.dtype.kind == "f":
        return value.astype("f4").astype(float)
    if isinstance(value, tuple):
        return tuple(_coarse(one) for one in value)
    if isinstance(value, list):
        return [_coarse(one) for one in value]
    return value


def wrapper(kind):
    """ What a whole function may do wrongly. """
    import functools

    def decorate(func):
        kept = {}

        @functools.wraps(func)
        def changed(*args, **kwargs):
            if kind == "coarse":
                return _coarse(func(*args, **kwargs))
            if kind == "quiet":
                try:
                    return func(*args, **kwargs)
                except Exception:
                    return None
            own = args[:1] if kind in ("cached", "idle") else ()
            key = (tuple(map(id, own)),
                   repr(args[1:] if kind != "idle" else ()),
                   repr(sorted(kwargs.items())) if kind != "idle" else "")
            if key not in kept:
                kept[key] = (own, func(*args, **kwargs))
            return kept[key][1]
        return changed
    return decorate


class Third(Sites):
    """ Whole functions, orders of statements and mixed up names. """
    def visit_FunctionDef(self, node):
        self.where.append(node.name)
        if not node.name.startswith("__") and node.args.args:
            gives = any(isinstance(n, ast.Return) and n.value is not None
                        for n in ast.walk(node))
            kinds = ["coarse", "cached", "shared"] if gives else ["idle"]
            if any(isinstance(n, ast.Raise) for n in ast.walk(node)):
                kinds.append("quiet")
            for kind in kinds:
                def change(kind=kind):
                    node.decorator_list.append(ast.copy_location(ast.Call(
                        ast.parse("__import__('__main__').wrapper",
                                  mode="eval").body,
                        [ast.Constant(kind)], []), node.body[0]))
                self.add(node, kind, change)
        names = []
        for arg in node.args.args:
            names.append(arg.arg)
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and \
                    n.id not in names:
                names.append(n.id)
        names = [n for n in names if n not in ("self", "cls")]
        if len(names) > 1:
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) \
                        and n.id in names:
                    def mix(n=n):
                        n.id = names[names.index(n.id) - 1]
                    self.add(n, "name %s -> %s" % (
                        n.id, names[names.index(n.id) - 1]), mix)
        self.block(node)
        self.where.pop()

    def statement(self, stmts, index, stmt):
        plain = (ast.Assign, ast.AugAssign, ast.Expr)
        if index + 1 < len(stmts) and self.where and \
                isinstance(stmt, plain) and isinstance(stmts[index + 1], plain)\
                and not TALK.match(text_of(stmt)) and \
                not TALK.match(text_of(stmts[index + 1])) and \
                not (isinstance(stmt, ast.Expr) and
                     isinstance(stmt.value, ast.Constant)):
            def swap():
                stmts[index], stmts[index + 1] = stmts[index + 1], stmt
            self.add(stmt, "order: " + text_of(stmt), swap)
        if isinstance(stmt, (ast.FunctionDef, ast.ClassDef)):
            self.visit(stmt)
        else:
            self.block(stmt)


def sites(tree):
    kind = os.environ.get("MUTATE_MORE")
    visitor = Third() if kind == "3" else More() if kind else Sites()
    visitor.block(tree)
    return visitor.found


def parse(text, path):
    try:
        return ast.parse(text, path)
    except SyntaxError:
        return ast.parse(loader._refactor(text, path), path)


def child(module, index, args):
    path = os.path.join(loader.REPO, module)
    real = loader.compile_source

    def compile_source(text, where):
        if os.path.normpath(where) == os.path.normpath(path):
            tree = parse(text, where)
            found = sites(tree)
            found[index][3]()
            text = ast.unparse(ast.fix_missing_locations(tree))
        return real(text, where)
    loader.compile_source = compile_source
    from vlib import runner
    runner.loader.compile_source = compile_source
    code = runner.main(args)
    sys.stdout.flush()
    os._exit(code)


def one(module, index, checks, limit):
    for check in checks:
        with tempfile.TemporaryDirectory(prefix="mut_") as folder:
            env = dict(os.environ, VERIF_EVIDENCE=folder, TMPDIR=folder,
                       PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            env.setdefault("VERIF_SEED", "1")
            try:
                done = subprocess.run(
                    [sys.executable, "-W", "ignore", __file__, "child",
                     module, str(index), check], env=env, timeout=limit,
                    cwd=HERE, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True)
            except subprocess.TimeoutExpired:
                return check + " (time)"
            if done.returncode == 1 and "VIOLATION" in done.stdout:
                return check
            if done.returncode != 0:
                return check + " (error %s) %s" % (
                    done.returncode, done.stdout.strip()[-300:])
    return None


def main():
    if sys.argv[1] == "child":
        child(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
    parser = argparse.ArgumentParser()
    parser.add_argument("what")
    parser.add_argument("module")
    parser.add_argument("checks", nargs="*")
    parser.add_argument("--jobs", type=int, default=7)
    parser.add_argument("--limit", type=int, default=240)
    parser.add_argument("--out", default=None)
    parser.add_argument("--only", default="")
    parser.add_argument("--every", type=int, default=1)
    parser.add_argument("--kinds", default="", help="of changes, a regex")
    args = parser.parse_args()
    path = os.path.join(loader.REPO, args.module)
    found = sites(parse(open(path, encoding="utf-8").read(), path))
    chosen = [i for i, s in enumerate(found)
              if re.search(args.only, s[1]) and
              re.match(args.kinds, s[2]) and i % args.every == 0]
    if args.what == "list":
        for i in chosen:
            print(i, *found[i][:3])
        return
    out = open(args.out, "a") if args.out else sys.stdout

    def job(i):
        by = one(args.module, i, args.checks, args.limit)
        line, where, what, _ = found[i]
        if by is None:
            out.write("SURVIVED %s #%d line %d %s: %s\n" % (
                args.module, i, line, where, what))
        elif "(" in by:
            out.write("ODD %s #%d line %d %s: %s BY %s\n" % (
                args.module, i, line, where, what, by))
        out.flush()
        return by is not None
    with ThreadPoolExecutor(args.jobs) as pool:
        killed = list(pool.map(job, chosen))
    out.write("DONE %s: %d of %d noticed\n" % (args.module, sum(killed),
                                               len(killed)))


main()
