"""Names a library package provides, read from the source of its __init__ (parsed, never imported)."""
import ast
import collections
import glob
import os

SITES = sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))
_cache = {}
CLOSED = ("numpy", "torch", "numpy.linalg", "dcor", "networkx", "scipy.stats", "scipy.spatial.distance", "matplotlib.pyplot", "sklearn.linear_model",
          "sklearn.preprocessing", "sklearn.model_selection")


def path_of(mod):
    for s in SITES:
        p = os.path.join(s, *mod.split("."))
        if os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
    return None


# further files whose top-level (and class-level) names the package re-exports dynamically
EXTRA = {"torch": ["torch/_C/__init__.pyi", "torch/_C/_VariableFunctions.pyi", "torch/functional.py", "torch/_tensor_str.py"],
         "torch.linalg": ["torch/_C/_linalg.pyi"]}


def site_file(rel):
    for s in SITES:
        p = os.path.join(s, rel)
        if os.path.exists(p):
            return p
    return None


def all_defs(rel):
    """every name defined or assigned anywhere in a file, or None"""
    p = site_file(rel)
    if p is None:
        return None
    try:
        tree = ast.parse(open(p, encoding="utf-8").read())
    except (SyntaxError, OSError, ValueError):
        return None
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            out.add(n.attr)
        elif isinstance(n, ast.keyword) and n.arg:
            out.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split(".")[-1] for a in n.names}
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            out.add(n.value)
    return out


def array_attrs():
    """every attribute an array, tensor or built-in container can have, or None when it cannot be determined"""
    if "<array>" not in _cache:
        out = set()
        for o in (list, dict, set, tuple, str, int, float, complex, range, bytes):
            out |= set(dir(o))
        for rel in ("numpy/__init__.pyi", "torch/_C/__init__.pyi", "torch/_tensor.py"):
            d = all_defs(rel)
            if d is None:
                out = None
                break
            out |= d
        _cache["<array>"] = out
    return _cache["<array>"]


# the files from which everything an object of a library class answers to can be read
OBJECTS = {"optres": (["scipy/optimize/_optimize.py", "scipy/optimize/_slsqp_py.py", "scipy/optimize/_lbfgsb_py.py", "scipy/optimize/_minimize.py", "scipy/_lib/_util.py"], (dict,)),
           "generator": (["numpy/random/_generator.pyi"], (object,)),
           "optimizer": (["torch/optim/optimizer.py", "torch/optim/adamw.py", "torch/optim/adam.py", "torch/optim/sgd.py", "torch/optim/adamax.py", "torch/optim/nadam.py",
                          "torch/optim/rmsprop.py"], (object,)),
           "scheduler": (["torch/optim/lr_scheduler.py", "torch/optim/swa_utils.py"], (object,)),
           "loader": (["torch/utils/data/dataloader.py"], (object,)),
           "module": (["torch/nn/modules/module.py"], (object,))}


_SEQ = {x for c in (list, tuple, dict, set, frozenset, collections.deque, type({}.keys()), type({}.values()), type({}.items())) for x in dir(c)}
PYTHON = {"list": _SEQ, "string": set(dir(str)) | set(dir(bytes))}      # what a value modelled as a list or string can have, whatever its exact type


def object_attrs(kind):
    """every attribute an object of the kind can have (an over-approximation), or None"""
    if kind in PYTHON:
        return PYTHON[kind]
    key = "<" + kind + ">"
    if key not in _cache:
        files, base = OBJECTS[kind]
        out = {x for b in base for x in dir(b)}
        found = False
        for rel in files:
            d = all_defs(rel)
            if d is not None:
                found = True
                out |= d
            elif rel == files[0]:
                found = None
                break
        _cache[key] = out if found else None
    return _cache[key]


def names(mod, depth=0):
    """set of attribute names, or None when they cannot all be determined"""
    if mod in _cache:
        return _cache[mod]
    _cache[mod] = None
    p = path_of(mod)
    if p is None or depth > 6:
        return None
    try:
        tree = ast.parse(open(p, encoding="utf-8").read())
    except (SyntaxError, OSError, ValueError):
        return None
    out = {"__name__", "__file__", "__doc__", "__path__", "__all__", "__version__", "__dict__"}
    ispkg = p.endswith("__init__.py")
    if ispkg:
        for f in os.listdir(os.path.dirname(p)):
            out.add(f.split(".")[0])
    ok = True
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            if n.name == "__getattr__":
                out |= {c.value for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.Import):
            out |= {a.asname or a.name.split(".")[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name != "*":
                    out.add(a.asname or a.name)
                    continue
                base = n.module or ""
                if n.level:
                    pk = mod.split(".")
                    up = n.level - (1 if ispkg else 0)
                    pk = pk[: len(pk) - up] if up else pk
                    base = ".".join(pk + ([base] if base else []))
                sub = names(base, depth + 1)
                if sub is None:
                    ok = False
                else:
                    out |= sub
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "exec":
            ok = False
    for rel in EXTRA.get(mod, ()):
        d = all_defs(rel)
        if d is None:
            return None
        out |= d
        ok = True
    _cache[mod] = out if ok else None
    return _cache[mod]


def missing(dotted):
    """is the attribute certainly absent?  Only asked of packages whose name list is closed"""
    m, _, a = dotted.rpartition(".")
    if m not in CLOSED or a.startswith("_"):
        return False
    s = names(m)
    return s is not None and a not in s
