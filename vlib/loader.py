"""Import hook that runs echidna's Python 2 sources from /repo on CPython 3.

echidna is Python 2 code and no Python 2 interpreter is available.  The hook
reads every ``echidna.*`` module from the *current* working tree of /repo
(never from a cached copy, nothing is written next to the sources) and

1. parses it as it is; if that fails, after lib2to3 has rewritten Python 2
   *syntax* (the same fixers as the project's build script uses);
2. rewrites, on the syntax tree, the operations whose *meaning* differs
   between Python 2 and 3: integer ``/``, ``dict.keys()/values()/items()``
   (lists) and their ``iter*`` variants, and gives the module a builtins
   namespace with Python 2's ``range/zip/map/filter/round/...``.

Only language semantics are emulated: library behaviour is that of the
installed numpy/scipy.
"""
import ast
import builtins as _builtins
import collections.abc
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import io
import itertools
import math
import operator
import os
import sys
import warnings

import numpy

REPO = os.environ.get("VERIF_REPO", "/repo")

_FIXERS = ["lib2to3.fixes.fix_" + x for x in
           "print except raise exec repr ne numliterals tuple_params throw".split()]
_tool = None


def _refactor(text, path):
    global _tool
    if _tool is None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                from lib2to3 import refactor
            except ImportError:       # debian keeps it with the system python
                sys.path.append("/usr/lib/python3.12")
                from lib2to3 import refactor
            _tool = refactor.RefactoringTool(_FIXERS)
    return str(_tool.refactor_string(text + "\n", path))


# --------------------------------------------------------------- semantics
def _integral(x):
    if isinstance(x, numpy.ndarray):
        return x.dtype.kind in "iub"
    return isinstance(x, (int, numpy.integer, numpy.bool_))


def py2_div(a, b):
    if _integral(a) and _integral(b):
        return operator.floordiv(a, b)
    return operator.truediv(a, b)


def py2_idiv(a, b):
    if _integral(a) and _integral(b):
        return operator.ifloordiv(a, b)
    return operator.itruediv(a, b)


def _listify(name):
    def helper(obj):
        method = getattr(obj, name)
        result = method()
        if isinstance(obj, collections.abc.Mapping):
            return list(result)
        return result
    helper.__name__ = "py2_" + name
    return helper


def _iterify(name):
    def helper(obj):
        if hasattr(obj, "iter" + name):
            return getattr(obj, "iter" + name)()
        return iter(getattr(obj, name)())
    helper.__name__ = "py2_iter" + name
    return helper


def py2_has_key(obj, key):
    if hasattr(obj, "has_key"):
        return obj.has_key(key)
    return key in obj


def py2_round(number, ndigits=0):
    if hasattr(number, "dtype") and getattr(number, "ndim", 0) == 0:
        number = float(number)
    if not isinstance(number, (int, float)):
        return _builtins.round(number, ndigits)
    number = float(number)
    if not math.isfinite(number):
        return number
    if ndigits == 0:
        # half away from zero
        result = math.floor(abs(number) + 0.5)
        if abs(number) == 0.49999999999999994:
            result = 0.
        return math.copysign(float(result), number)
    rounded = _builtins.round(number, ndigits)
    return float(rounded)


def _p2list(func):
    @functools.wraps(func)
    def wrapper(*args):
        return list(func(*args))
    return wrapper


def py2_map(func, *seqs):
    if func is None:
        if len(seqs) == 1:
            return list(seqs[0])
        return list(itertools.zip_longest(*seqs))
    return list(_builtins.map(func, *seqs))


def py2_filter(func, seq):
    result = _builtins.filter(func, seq)
    if isinstance(seq, str):
        return "".join(result)
    if isinstance(seq, tuple):
        return tuple(result)
    return list(result)


class _Py2Range(object):
    pass


def py2_range(*args):
    for arg in args:
        if isinstance(arg, (float, numpy.floating)):
            # Python 2.7: a float argument is a TypeError
            raise TypeError("range() integer argument expected, got float.")
    return list(_builtins.range(*[int(a) for a in args]))


def py2_sorted(iterable, cmp=None, key=None, reverse=False):
    if cmp is not None:
        key = functools.cmp_to_key(cmp)
    return _builtins.sorted(iterable, key=key, reverse=reverse)


PY2_BUILTINS = dict(vars(_builtins))
PY2_BUILTINS.update({
    "range": py2_range, "xrange": _builtins.range, "zip": _p2list(_builtins.zip),
    "map": py2_map, "filter": py2_filter, "round": py2_round,
    "unicode": str, "basestring": str, "long": int, "unichr": chr,
    "raw_input": _builtins.input, "reduce": functools.reduce,
    "sorted": py2_sorted, "cmp": lambda a, b: (a > b) - (a < b),
    "_py2_div": py2_div, "_py2_idiv": py2_idiv,
    "_py2_keys": _listify("keys"), "_py2_values": _listify("values"),
    "_py2_items": _listify("items"), "_py2_iterkeys": _iterify("keys"),
    "_py2_itervalues": _iterify("values"), "_py2_iteritems": _iterify("items"),
    "_py2_has_key": py2_has_key,
})


class _Transform(ast.NodeTransformer):
    def __init__(self, future_division):
        self.future_division = future_division

    def _call(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.copy_location(
                ast.Name(id=name, ctx=ast.Load()), node),
                args=args, keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.future_division:
            return self._call("_py2_div", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.future_division:
            load = _copy_with_ctx(node.target)
            value = self._call("_py2_idiv", [load, node.value], node)
            return ast.copy_location(
                ast.Assign(targets=[node.target], value=value), node)
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        for stmt in node.body:
            if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and \
                    isinstance(stmt.targets[0], ast.Name) and \
                    stmt.targets[0].id == "__metaclass__" and \
                    not any(k.arg == "metaclass" for k in node.keywords):
                node.keywords.append(ast.keyword(arg="metaclass",
                                                 value=stmt.value))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        func = node.func
        if isinstance(func, ast.Attribute) and not node.keywords:
            if not node.args and func.attr in (
                    "keys", "values", "items", "iterkeys", "itervalues",
                    "iteritems"):
                return self._call("_py2_" + func.attr, [func.value], node)
            if len(node.args) == 1 and func.attr == "has_key":
                return self._call("_py2_has_key",
                                  [func.value, node.args[0]], node)
        return node


def _copy_with_ctx(target):
    import copy
    new = copy.deepcopy(target)
    new.ctx = ast.Load()
    return new


def compile_source(text, path):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(text, path)
    except SyntaxError:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(_refactor(text, path), path)
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and
                 any(a.name == "division" for a in n.names)
                 for n in tree.body)
    tree = ast.fix_missing_locations(_Transform(future).visit(tree))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return compile(tree, path, "exec", dont_inherit=True)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with io.open(self.path, encoding="utf-8") as source:
            text = source.read()
        code = compile_source(text, self.path)
        module.__dict__["__builtins__"] = PY2_BUILTINS
        module.__file__ = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "echidna" and not fullname.startswith("echidna."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(
                fullname, _Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        if os.path.isfile(base + ".py"):
            spec = importlib.machinery.ModuleSpec(
                fullname, _Loader(base + ".py"), origin=base + ".py")
            spec.has_location = True
            return spec
        return None


_installed = False


def install():
    """ Install the import hook and the stand-ins for absent packages. """
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.meta_path.insert(0, _Finder())
    import time
    if not hasattr(time, "clock"):
        time.clock = time.process_time
    from vlib import fakes
    fakes.install()
    # nothing the code logs or saves by default may land in /repo
    global _scratch
    import atexit
    import shutil
    import tempfile
    _scratch = tempfile.mkdtemp(prefix="verif_out_")
    atexit.register(shutil.rmtree, _scratch, True)
    import echidna.settings as settings
    for key in list(settings.user_profile):
        if key.endswith("save_path"):
            settings.user_profile[key] = _scratch + "/"
    import echidna.output
    echidna.output.__default_save_path__ = _scratch


def run_script(path, argv):
    """ Execute a repository script as ``__main__`` with *argv*. """
    full = os.path.join(REPO, path)
    with io.open(full, encoding="utf-8") as source:
        code = compile_source(source.read(), full)
    namespace = {"__name__": "__main__", "__file__": full,
                 "__builtins__": PY2_BUILTINS}
    saved = sys.argv
    sys.argv = [full] + list(argv)
    try:
        exec(code, namespace)
    finally:
        sys.argv = saved
    return namespace
