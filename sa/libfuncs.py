"""Library functions by dotted name."""
from __future__ import annotations

from . import terms as T
from .terms import mk, const, phi, lnot, land, lor, NONE, TRUE, FALSE
from .values import *

NUMMODS = ("numpy", "torch", "numpy.linalg", "torch.linalg", "scipy.linalg", "math", "numpy.core", "numpy.ma",
           "torch.nn.functional", "torch.functional", "scipy.special", "numpy.lib", "cmath", "torch.special")

UN = {"exp": "exp", "log": "log", "sqrt": "sqrt", "abs": "abs", "absolute": "abs", "fabs": "abs", "sign": "sign",
      "logical_not": "not", "invert": "invert", "bitwise_not": "invert", "negative": "neg", "neg": "neg", "round": "round",
      "around": "round", "rint": "round", "floor": "floor", "ceil": "ceil", "isnan": "isnan", "isfinite": "isfinite",
      "sigmoid": "sigmoid", "relu": "relu", "tanh": "tanh", "log1p": "log1p", "expm1": "expm1", "log2": "log2",
      "log10": "log10", "softplus": "softplus", "trunc": "trunc"}
BIN = {"add": "add", "subtract": "sub", "sub": "sub", "multiply": "mul", "mul": "mul", "divide": "div", "div": "div",
       "true_divide": "div", "floor_divide": "floordiv", "mod": "mod", "remainder": "mod", "power": "pow", "pow": "pow",
       "less": "lt", "lt": "lt", "less_equal": "le", "le": "le", "greater": "gt", "gt": "gt", "greater_equal": "ge",
       "ge": "ge", "equal": "eq", "eq": "eq", "not_equal": "ne", "ne": "ne", "logical_and": "and", "bitwise_and": "and",
       "logical_or": "or", "bitwise_or": "or", "logical_xor": "xor", "bitwise_xor": "xor", "maximum": "maximum",
       "minimum": "minimum", "matmul": "matmul", "mm": "matmul", "dot": "matmul", "mv": "matmul", "bmm": "matmul",
       "fmax": "maximum", "fmin": "minimum", "vdot": "matmul", "inner": "inner"}
RED = {"sum": "sum", "mean": "mean", "average": "mean", "any": "any", "all": "all", "max": "max", "amax": "max",
       "min": "min", "amin": "min", "prod": "prod", "argmax": "argmax", "argmin": "argmin", "std": "std", "var": "var",
       "median": "median", "nanmean": "mean", "nansum": "sum", "cumsum": "cumsum", "cumprod": "cumprod",
       "count_nonzero": "count", "ptp": "ptp", "alltrue": "all"}
DRAWS = {"random", "integers", "choice", "permutation", "permuted", "shuffle", "normal", "standard_normal", "uniform",
         "multivariate_normal", "exponential", "gamma", "beta", "binomial", "poisson", "laplace", "standard_t", "bytes",
         "randint", "rand", "randn", "random_sample", "ranf", "sample", "dirichlet", "multinomial", "geometric", "lognormal",
         "standard_exponential", "chisquare", "standard_gamma", "random_integers", "triangular", "vonmises", "wald",
         "weibull", "standard_cauchy", "logistic", "rayleigh", "pareto", "gumbel", "f", "zipf", "hypergeometric"}
TORCH_DRAWS = {"randn", "rand", "randint", "randperm", "normal", "bernoulli", "multinomial", "randn_like", "rand_like",
               "poisson", "randint_like"}
CTYPES = ("list", "deque", "tuple", "set")


def tail(n):
    return n.rsplit(".", 1)[-1]


def isnummod(name):
    m = name.rsplit(".", 1)[0] if "." in name else ""
    return m in NUMMODS


def dtypeterm(L, v):
    if v is None:
        return None
    if isinstance(v, LibV):
        n = tail(v.name)
        for k, names in (("bool", ("bool", "bool_", "bool8")), ("float", ("float", "float64", "double", "float_")),
                         ("int", ("int", "int64", "int_", "intp", "long", "integer")), ("float32", ("float32", "single")),
                         ):
            if n in names:
                return const(k)
        return const(n)
    if isinstance(v, ConstV):
        if v.v is None:
            return None
        if isinstance(v.v, str):
            return const({"float64": "float", "?": "bool", "int64": "int", "f8": "float", "i8": "int", "float_": "float"}.get(v.v, v.v))
    if isinstance(v, PhiV):
        return phi(v.cond, dtypeterm(L, v.a) or NONE, dtypeterm(L, v.b) or NONE)
    return L.t(v)


def filled(dt, own):
    """dtype term with `own` where none is given"""
    if dt.op == "phi":
        return phi(dt.args[0], filled(dt.args[1], own), filled(dt.args[2], own))
    return own if dt is NONE else dt


def astype(L, t, dt):
    if dt is None:
        return t
    if T.is_c(dt, "bool"):
        if L.boolish(t):
            return t
        if t.op == "astype" and T.is_c(t.args[1], "bool"):
            return t
        if t.op == "full" and t.args[1].op == "const":
            return mk("full", (t.args[0], const(bool(T.cval(t.args[1])))))
        if t.op == "const" and isinstance(T.cval(t), (int, float)):
            return const(bool(T.cval(t)))
    if t.op == "astype" and t.args[1] is dt:
        return t
    if dt.op == "dtype" and dt.args[0] is t:
        return t
    return mk("astype", (t, dt))


class A:
    """argument access"""

    def __init__(self, L, args, kw):
        self.L, self.args, self.kw = L, args, dict(kw)
        self.name = None

    def v(self, i, *names):
        for n in names:
            if n in self.kw:
                return self.kw[n]
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def t(self, i, *names, default=None):
        v = self.v(i, *names)
        return default if v is None else self.L.t(v)


def libattr(L, v, name):
    n = v.name + "." + name
    base = v.name.split(".")[0]
    if n in ("numpy.nan", "math.nan", "numpy.NaN"):
        return L.newref(mk("nan"))
    if n in ("numpy.inf", "math.inf", "numpy.Inf", "torch.inf"):
        return ConstV(float("inf"))
    if n in ("numpy.pi", "math.pi"):
        return ConstV(3.141592653589793)
    if n == "numpy.newaxis":
        return ConstV(None)
    if n in ("math.e", "numpy.e"):
        return ConstV(2.718281828459045)
    if n in ("os.sep", "os.path.sep"):
        return ConstV("/")
    missing = missing_lib_attr(n)
    if missing:
        L.e.event("lib-attr-missing", name=n)
    return LibV(n)


# attributes checked against the interpreter's standard library without importing the package
_STDCHECK = {"builtins", "os", "os.path", "math", "itertools", "functools", "collections", "pickle", "warnings", "shutil",
             "subprocess", "random", "time", "json", "re", "string", "operator"}
_cache = {}


def missing_lib_attr(n):
    m, _, a = n.rpartition(".")
    if m not in _STDCHECK:
        return False
    if m not in _cache:
        import importlib
        try:
            _cache[m] = set(dir(importlib.import_module(m)))
        except Exception:
            _cache[m] = None
    return _cache[m] is not None and a not in _cache[m]


def shapearg(L, v):
    """shape argument -> term (tuple of dims, or scalar as 1-tuple)"""
    if isinstance(v, TupV):
        return L.t(v)
    if isinstance(v, ListV):
        t = L.t(v)
        if t.op == "list" and not any(a.op == "many" for a in t.args):
            return T.tup(t.args)
        return t
    t = L.t(v)
    if t.op in ("shape", "tuple", "phi"):
        return t
    if t.op == "list":
        return T.tup(t.args)
    return T.tup([t])


def full(L, shape, val, dt):
    kw = {}
    if dt is not None:
        if T.is_c(dt, "bool") and val.op == "const":
            return mk("full", (shape, const(bool(T.cval(val)))))
        kw["dtype"] = dt
    if val.op == "const" and isinstance(T.cval(val), float) and T.cval(val) == int(T.cval(val) if abs(T.cval(val)) < 1e9 else 0):
        val = const(int(T.cval(val)))
    return mk("full", (shape, val), kw)


def cat(L, v):
    """sequence argument of vstack & co -> list of terms or None"""
    items = L.e.known_items(v)
    if items is not None:
        return [L.t(x) for x in items]
    return None


TORCH_NEW = {"tensor", "as_tensor", "from_numpy", "zeros", "ones", "full", "empty", "eye", "arange", "linspace", "rand", "randn", "randint", "randperm",
             "Tensor", "FloatTensor", "tril_indices", "triu_indices", "logspace", "scalar_tensor"}


def call(L, name, args, kw):
    e = L.e
    a = A(L, args, kw)
    a.name = name
    if e.st is None:
        return ConstV(None)
    args = [e.dephi(x) if isinstance(x, PhiV) else x for x in args]
    a.args = args
    n = tail(name)
    mod = name.rsplit(".", 1)[0] if "." in name else ""
    if name.startswith("builtins."):
        return builtin(L, n, a)
    if e.devices and name.startswith(("numpy.", "scipy.", "pickle.")):
        e.event("hostcall", name=name, args=tuple(L.t(x) for x in list(args) + list(kw.values())))
    if e.devices and name.startswith("torch.") and not name.startswith(("torch.nn.init", "torch.optim", "torch.utils")):
        like = n.endswith("_like") and args and isinstance(args[0], Ref)
        if "device" in kw or like:
            kw = dict(kw)
            d = kw.pop("device", None)
            e.devices = False
            r = call(L, name, args, kw)
            e.devices = True
            if not isinstance(r, Ref):
                return r
            if d is not None and not (isinstance(d, ConstV) and d.v is None):
                return e.ref(mk("todev", (L.t(r), L.t(d))))
            if like:
                return e.ref(mk("likedev", (L.t(r), L.t(args[0]))))
            return e.ref(mk("hostnew", (L.t(r),)))
        if mod == "torch" and n in TORCH_NEW:
            e.devices = False
            r = call(L, name, args, kw)
            e.devices = True
            return e.ref(mk("hostnew", (L.t(r),))) if isinstance(r, Ref) else r
    if "out" in kw and isinstance(kw["out"], Ref) and isnummod(name):
        k2 = dict(kw)
        out = k2.pop("out")
        r = call(L, name, args, k2)
        e.write(out, L.t(r), f"out= of {name}")
        return out
    if mod in ("numpy.random",):
        return nprandom(L, n, a)
    if mod == "random":
        if n == "seed":
            e.event("seed", which="random", value=a.t(0))
            return ConstV(None)
        return L_draw(L, mk("lib", data="random"), n, a, ())
    if mod == "torch" and n in ("manual_seed",) or name in ("torch.random.manual_seed", "torch.cuda.manual_seed",
                                                           "torch.cuda.manual_seed_all"):
        e.event("seed", which="torch" if "cuda" not in name else "torch.cuda", value=a.t(0))
        return L.newref(mk("torch-gen"))
    if name == "torch.Generator":
        return L.newref(mk("rng", (a.t(0, "device", default=NONE),), data=e.uid()))
    if name in ("torch.random.fork_rng",):
        e.event("libcall", name=name, args=(), kw={})
        return L.newref(mk("call:" + name))
    if mod == "torch" and n in TORCH_DRAWS:
        g = a.kw.pop("generator", None)
        gt = L.t(g) if g is not None else mk("lib", data="torch-global")
        return L_draw(L, gt, n, a, e.origins(g) if g is not None else ())
    if mod in ("torch.nn.init",):
        return nninit(L, n, a)
    if n in ("float32", "float64", "int64", "bool_", "float16", "int32") and mod in ("numpy", "torch"):
        if args:
            return L.fresh(astype(L, a.t(0), dtypeterm(L, LibV(name))))
    f = NUM.get(n) if isnummod(name) else None
    if n in ("split", "array_split") and mod != "numpy":
        f = None        # torch.split takes sizes, not positions
    if f is not None:
        r = f(L, a)
        if r is not None:
            return r
    if isnummod(name):
        if n in UN:
            return L.fresh(un(L, UN[n], a.t(0, "x", "a", "input")))
        if n in BIN and len(args) + len(kw) >= 2:
            r = binary(L, BIN[n], a.t(0, "input", "x1", "a"), a.t(1, "other", "x2", "b", "mat2"))
            if n.startswith("logical"):
                L.logical.add(r)
            elif n.startswith("bitwise"):
                L.bitwise.add(r)
            return L.fresh(r)
        if n in RED:
            return L.fresh(reduce_(L, RED[n], a.t(0, "a", "input"), a, 1))
    g = FUN.get(name) or FUN.get(n if mod.split(".")[0] in ("scipy", "sklearn", "torch", "multiprocessing", "dcor", "pandas") else "")
    if g is not None:
        return g(L, a)
    if mod.startswith("torch.nn") or mod.startswith("torch.optim") or name in CTORS:
        return ctor(L, name, a)
    e.unmodelled[name] = e.unmodelled.get(name, 0) + 1
    targs = [L.t(x) for x in args]
    e.event("libcall", name=name, args=tuple(targs), kw={k: L.t(v) for k, v in kw.items()},
            origins=frozenset().union(*[e.origins(x) for x in list(args) + list(kw.values())]) if args or kw else frozenset())
    return L.newref(mk("call:" + name, targs, {k: L.t(v) for k, v in kw.items()}))


CTORS = {"torch.utils.data.DataLoader", "torch.utils.data.TensorDataset", "torch.device", "torch.optim.AdamW",
         "sklearn.preprocessing.StandardScaler", "multiprocessing.Pool", "multiprocessing.pool.Pool",
         "multiprocessing.pool.ThreadPool", "datetime.datetime"}


def un(L, op, t):
    if op == "neg":
        return T.neg(t)
    if op == "not":
        if L.boolish(t):
            return lnot(t)
        return mk("not", (t,))
    if op == "invert":
        return lnot(t) if L.boolish(t) else (t.args[0] if t.op == "invert" else mk("invert", (t,)))
    if t.op == "const" and op == "abs" and T.isnum(t):
        return const(abs(T.cval(t)))
    if op == "abs" and t.op in ("abs", "neg"):
        return mk("abs", (t.args[0],))
    if op == "exp" and t.op == "log" or op == "log" and t.op == "exp":
        return t.args[0]
    if op == "round" and t.op == "round":
        return t
    return mk(op, (t,))


def binary(L, op, x, y):
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        return L.cmp_term(op, x, y)
    return L._binop_term(op, x, y)


def axisterm(L, a, pos):
    v = a.v(pos, "axis", "dim")
    if v is None or (isinstance(v, ConstV) and v.v is None):
        return None
    return L.t(v)


def reduce_(L, op, x, a, pos):
    ax = axisterm(L, a, pos)
    kw = {}
    if ax is not None:
        if T.isnum(ax) and T.cval(ax) < 0 and L.ndim(x):
            ax = const(T.cval(ax) + L.ndim(x))
        kw["axis"] = ax
    kd = a.v(None, "keepdims", "keepdim")
    if kd is not None and L.t(kd) is TRUE:
        kw["keepdims"] = TRUE
    for extra in ("ddof", "where", "weights", "initial"):
        if extra in a.kw:
            kw[extra] = L.t(a.kw[extra])
    if op == "count":
        return mk("sum", (astype(L, x, const("bool")),), kw)
    if op in ("any", "all") and not L.boolish(x):
        x = astype(L, x, const("bool"))
    if op == "mean" and x.op == "list":
        x = mk("array", (x,))
    return mk(op, (x,), kw)


# ------------------------------------------------------------------ random numbers
def L_draw(L, gen, method, a, origins):
    e = L.e
    if method in ("randn_like", "rand_like") and a.args:
        a = A(L, [], {**{k: v for k, v in a.kw.items() if k == "size"}, "size": L.newref(L.shapeof(a.t(0)))})
        method = "standard_normal" if method == "randn_like" else "random"
    if method == "normal" and ("mean" in a.kw or "std" in a.kw):
        a = A(L, a.args, {{"mean": "loc", "std": "scale"}.get(k, k): v for k, v in a.kw.items()})
    alias = {"standard_normal": "standard_normal", "randn": "standard_normal", "random_sample": "random", "rand": "random",
             "ranf": "random"}
    m = alias.get(method, method)
    names = {"random": ["size"], "integers": ["low", "high", "size"], "choice": ["a", "size"], "permutation": ["x"],
             "permuted": ["x"], "shuffle": ["x"], "normal": ["loc", "scale", "size"], "standard_normal": ["size"],
             "uniform": ["low", "high", "size"], "multivariate_normal": ["mean", "cov", "size"], "randint": ["low", "high", "size"]
             }.get(m, [])
    kw = {}
    pos = [gen]
    if method in ("rand", "randn"):
        if a.args:
            kw["size"] = T.tup([L.t(x) for x in a.args]) if len(a.args) > 1 else shapearg(L, a.args[0])
    else:
        for i, x in enumerate(a.args):
            nm = names[i] if i < len(names) else None
            if nm in (None, "x", "a", "mean", "cov", "low", "high", "loc", "scale"):
                pos.append(L.t(x))
            else:
                kw[nm] = L.t(x)
    for k, v in a.kw.items():
        kw[k] = L.t(v)
    if "size" in kw and kw["size"].op == "tuple" and len(kw["size"].args) == 1:
        kw["size"] = kw["size"].args[0]
    for nm in ("x", "a", "mean", "cov", "low", "high", "loc", "scale"):
        if nm in kw and nm in names:
            i = names.index(nm)
            if len(pos) == i + 1:
                pos.append(kw.pop(nm))
    out = a.v(None, "out")
    t = mk("draw", pos, kw, data=(m, e.uid()))
    e.event("draw", gen=gen, method=m, term=t, origins=frozenset(origins),
            args=tuple(pos[1:]), kw=dict(kw))
    if m == "shuffle" and a.args and isinstance(a.args[0], Ref):
        e.write(a.args[0], mk("draw", pos, kw, data=("permutation", t.data[1])), "shuffle")
        return ConstV(None)
    if isinstance(out, Ref):
        e.write(out, t, "out= of draw")
        return out
    return L.newref(t)


def nprandom(L, n, a):
    e = L.e
    if n in ("default_rng", "RandomState", "Generator", "PCG64", "SeedSequence", "Philox", "MT19937"):
        s = a.v(0, "seed")
        if isinstance(s, Ref) and (L.t(s).op == "rng" or e.kindfacts.get(L.t(s)) == "generator"):
            return s
        t = mk("rng", (a.t(0, "seed", default=NONE),), data=e.uid())
        if n in ("default_rng", "Generator"):
            e.nprngs.add(t)
        e.event("rng-create", seed=a.t(0, "seed", default=NONE), term=t)
        return L.newref(t)
    if n == "seed":
        e.event("seed", which="numpy", value=a.t(0, "seed", default=NONE))
        return ConstV(None)
    if n in ("get_state", "set_state"):
        e.event("libcall", name="numpy.random." + n, args=(), kw={}, origins=frozenset())
        return L.newref(mk("call:numpy.random." + n))
    return L_draw(L, mk("lib", data="numpy-global"), n, a, ())


def nninit(L, n, a):
    e = L.e
    x = a.v(0, "tensor")
    if n == "_calculate_fan_in_and_fan_out":
        w = L.t(x)
        return TupV([L.newref(mk("fan_in", (w,))), L.newref(mk("fan_out", (w,)))])
    if n == "calculate_gain":
        return L.newref(mk("gain", [L.t(v) for v in a.args]))
    base = n.rstrip("_")
    if isinstance(x, Ref):
        old = L.t(x)
        if base in ("zeros", "ones", "constant"):
            val = const(0) if base == "zeros" else const(1) if base == "ones" else a.t(1, "val")
            new = mk("full", (mk("shape", (old,)), val))
        else:
            g = mk("lib", data="torch-global")
            new = mk("draw", [g] + [L.t(v) for v in a.args[1:]], {k: L.t(v) for k, v in a.kw.items()}, data=("init:" + base, e.uid()))
            new = mk("ofshape", (new, mk("shape", (old,))))
            e.event("draw", gen=g, method="init:" + base, term=new, origins=frozenset(), args=(), kw={})
        e.write(x, new, "nn.init." + n)
        return x
    return L.newref(mk("call:torch.nn.init." + n, [L.t(v) for v in a.args]))


# ------------------------------------------------------------------ numeric functions
NUM = {}


def num(*names):
    def deco(f):
        for n in names:
            NUM[n] = f
        return f
    return deco


def mkfill(val):
    def f(L, a):
        if val is None:
            v = a.t(1, "fill_value")
            dt = dtypeterm(L, a.v(2, "dtype"))
        else:
            v = const(val)
            dt = dtypeterm(L, a.v(1, "dtype"))
            if len(a.args) > 1 and not isinstance(a.args[1], LibV) and "dtype" not in a.kw and all(
                    L.scalarint(L.t(x)) or isinstance(x, (ConstV,)) and isinstance(x.v, int) for x in a.args):
                return L.newref(full(L, T.tup([L.t(x) for x in a.args]), v, None))   # torch.zeros(a, b)
            if len(a.args) > 1 and isinstance(a.args[1], Ref) and "dtype" not in a.kw:
                return L.newref(full(L, T.tup([L.t(x) for x in a.args]), v, None))
        return L.newref(full(L, shapearg(L, a.v(0, "shape", "size")), v, dt))
    return f


NUM["zeros"] = mkfill(0)
NUM["ones"] = mkfill(1)
NUM["full"] = mkfill(None)


def mklike(val):
    def f(L, a):
        x = a.t(0, "a", "input", "prototype")
        pos = 1
        if val is None:
            v = a.t(1, "fill_value")
            pos = 2
        else:
            v = const(val)
        dt = dtypeterm(L, a.v(pos, "dtype"))
        shp = L.shapeof(x)
        if dt is None:
            return L.newref(mk("full", (shp, v), {"dtype": mk("dtype", (x,))}))
        return L.newref(full(L, shp, v, filled(dt, mk("dtype", (x,)))))
    return f


NUM["zeros_like"] = mklike(0)
NUM["ones_like"] = mklike(1)
NUM["full_like"] = mklike(None)


@num("empty", "empty_like")
def _empty(L, a):
    v = a.v(0, "shape", "size", "a", "input")
    dt = dtypeterm(L, a.v(1, "dtype"))
    if isinstance(v, Ref) and L.t(v).op not in ("shape", "dim", "size", "sum", "param") or (
            isinstance(v, Ref) and L.ndim_positive(L.t(v))):
        shp = L.shapeof(L.t(v))
    elif len(a.args) > 1 and not isinstance(a.args[1], LibV) and "dtype" not in a.kw:
        shp = T.tup([L.t(x) for x in a.args])
    else:
        shp = shapearg(L, v)
    kw = {} if dt is None else {"dtype": dt}
    if dt is None and a.name and a.name.endswith("_like"):
        kw = {"dtype": mk("dtype", (L.t(v),))}
    return L.newref(mk("empty", (shp,), kw, data=L.e.uid()))


@num("eye", "identity")
def _eye(L, a):
    n = a.t(0, "N", "n")
    m = a.v(1, "M", "m")
    k = a.v(None, "k")
    dt = dtypeterm(L, a.v(None, "dtype"))
    if len(a.args) > 1 and isinstance(a.args[1], LibV):
        dt, m = dtypeterm(L, a.args[1]), None
    args = [n]
    if m is not None and L.t(m) is not n and L.t(m) is not NONE:
        args.append(L.t(m))
    kw = {}
    if k is not None and not T.is_c(L.t(k), 0):
        kw["k"] = L.t(k)
    if dt is not None:
        kw["dtype"] = dt
    return L.newref(mk("eye", args, kw))


@num("array", "asarray", "ascontiguousarray", "tensor", "as_tensor", "from_numpy", "asanyarray", "atleast_1d", "atleast_2d", "copy",
     "clone", "require", "Tensor", "squeeze_")
def _array(L, a):
    raise NotImplementedError


def mkarray(copying):
    def f(L, a):
        e = L.e
        v = a.v(0, "object", "a", "data", "input")
        dt = dtypeterm(L, a.v(1, "dtype")) if copying != "copy" else None
        cp = a.v(None, "copy")
        if isinstance(v, ConstV):
            t = mk("array", (const(v.v),)) if v.v is not None else mk("array", (NONE,))
            return L.newref(astype(L, t, dt))
        if isinstance(v, Ref):
            t = L.t(v)
            if t.op in ("gen", "map", "zip"):
                t = mk("array", (t,))
            t2 = astype(L, t, dt)
            if copying in (True, "copy") and not (cp is not None and L.t(cp) is FALSE):
                return e.ref(t2)
            return e.ref(t2, (v.cid, ("same",)) if t2 is t else None, e.origins(v))
        if isinstance(v, (ListV, TupV)):
            t = L.t(v)
            t = mk("list", t.args) if t.op == "tuple" else t
            return L.newref(astype(L, mk("array", (t,)), dt))
        return L.newref(astype(L, mk("array", (L.t(v),)), dt))
    return f


for _n in ("array", "tensor", "Tensor"):
    NUM[_n] = mkarray(True)
for _n in ("asarray", "ascontiguousarray", "as_tensor", "from_numpy", "asanyarray", "atleast_1d", "atleast_2d", "require"):
    NUM[_n] = mkarray(False)
for _n in ("copy", "clone"):
    NUM[_n] = mkarray("copy")
NUM.pop("squeeze_", None)


@num("arange")
def _arange(L, a):
    xs = [L.t(x) for x in a.args]
    dt = dtypeterm(L, a.v(None, "dtype"))
    if len(xs) >= 2 and T.is_c(xs[0], 0) and len(xs) == 2:
        xs = [xs[1]]
    t = mk("arange", xs)
    return L.newref(t if dt is None or T.is_c(dt, "int") else astype(L, t, dt))


@num("dot_")
def _x(L, a):
    return None


@num("transpose", "t", "swapaxes")
def _transpose(L, a):
    v = a.v(0, "a", "input")
    return transpose_val(L, v)


def transpose_val(L, v):
    e = L.e
    t = L.t(v)
    if isinstance(v, Ref):
        if t.op == "nonzero":
            return L.newref(mk("argwhere", t.args))
        return e.ref(T.transpose(t), (v.cid, ("T",)), e.origins(v))
    if t.op == "tuple" and all(x.op == "getitem" for x in t.args) and len({x.args[0] for x in t.args}) == 1 and \
            t.args[0].args[0].op == "nonzero":
        return L.newref(mk("argwhere", t.args[0].args[0].args))
    return L.newref(T.transpose(t))


@num("matrix_transpose")
def _mt(L, a):
    return transpose_val(L, a.v(0, "x"))


@num("where")
def _where(L, a):
    if len(a.args) == 1:
        c = a.t(0)
        return nonzero_val(L, c)
    c, x, y = a.t(0), a.t(1), a.t(2)
    if c.op == "not":
        c, x, y = c.args[0], y, x
    return L.newref(mk("where", (c, x, y)))


def nonzero_val(L, c):
    return L.newref(mk("nonzero", (c,)))


@num("nonzero")
def _nonzero(L, a):
    return nonzero_val(L, a.t(0))


@num("flatnonzero")
def _fnz(L, a):
    return L.newref(mk("flatnonzero", (a.t(0),)))


@num("argwhere")
def _argwhere(L, a):
    return L.newref(mk("argwhere", (a.t(0),)))


@num("clip", "clamp")
def _clip(L, a):
    return L.newref(clip(L, a.t(0), a, 1))


def clip(L, x, a, pos):
    lo = a.t(pos, "min", "a_min")
    hi = a.t(pos + 1, "max", "a_max")
    if lo is not None and lo is not NONE:
        x = T.binop("maximum", x, lo)
    if hi is not None and hi is not NONE:
        x = T.binop("minimum", x, hi)
    return x


@num("split", "array_split")
def _npsplit(L, a):
    """np.split(x, [i, j, ...]) is the slices x[:i], x[i:j], ..., x[j:]."""
    ax = a.v(2, "axis")
    at = a.v(1, "indices_or_sections")
    if ax is not None and not (isinstance(ax, ConstV) and ax.v == 0):
        return None
    items = at.items if isinstance(at, TupV) else None
    if isinstance(at, ListV) and all(not c for _, c in L.e.st.heap[at.cid].items):
        items = [x for x, _ in L.e.st.heap[at.cid].items]
    if items is None:
        return None
    cuts = [NONE] + [L.t(x) for x in items] + [NONE]
    x = a.v(0, "ary")
    return L.e.newlist([L.subscript(x, SliceV(lo, hi, NONE)) for lo, hi in zip(cuts, cuts[1:])])


@num("square")
def _square(L, a):
    return L.newref(T.binop("pow", a.t(0), const(2)))


@num("cov")
def _cov(L, a):
    x = a.t(0, "m")
    rv = a.v(2, "rowvar")
    return L.newref(covlike("cov", L, x, rv, a))


@num("corrcoef")
def _corr(L, a):
    x = a.t(0, "x")
    return L.newref(covlike("corr", L, x, a.v(2, "rowvar"), a))


def covlike(op, L, x, rv, a):
    row = True if rv is None else L.e.truth(L.t(rv))
    if row is None:
        return mk(op + "?", (x, L.t(rv)))
    if row:
        x = T.transpose(x)
    kw = {k: L.t(v) for k, v in a.kw.items() if k in ("bias", "ddof", "fweights", "aweights", "y")}
    return mk(op, (x,), kw)


@num("diag", "diagflat", "diag_embed")
def _diag(L, a):
    x = a.t(0, "v", "input")
    k = a.v(1, "k", "diagonal")
    kw = {} if k is None or T.is_c(L.t(k), 0) else {"k": L.t(k)}
    if x.op == "diag" and not kw and not x.kw:
        return L.newref(x.args[0])
    if L.ndim(x) == 2 and not kw:
        return L.newref(mk("diagonal", (x,)))
    if x.op == "full" and T.is_c(x.args[1], 1) and not kw and x.args[0].op == "tuple" and len(x.args[0].args) == 1:
        return L.newref(mk("eye", x.args[0].args))
    return L.newref(mk("diag", (x,), kw))


@num("diagonal")
def _diagonal(L, a):
    v = a.v(0)
    return L.e.ref(mk("diagonal", (L.t(v),)), None, L.e.origins(v))


@num("trace")
def _trace(L, a):
    return L.newref(mk("trace", (a.t(0),)))


@num("inv", "inverse", "pinv")
def _inv(L, a):
    return L.newref(mk("inv", (a.t(0),)))


@num("det")
def _det(L, a):
    return L.newref(mk("det", (a.t(0),)))


@num("slogdet")
def _slogdet(L, a):
    x = a.t(0)
    return TupV([L.newref(mk("slogdet_sign", (x,))), L.newref(mk("slogdet_log", (x,)))])


@num("logdet")
def _logdet(L, a):
    return L.newref(mk("slogdet_log", (a.t(0),)))


@num("solve")
def _solve(L, a):
    return L.newref(mk("matmul", (mk("inv", (a.t(0),)), a.t(1))))


@num("norm")
def _norm(L, a):
    x = a.t(0, "a", "x", "input", "A")
    r = norm(L, x, a, 1)
    if a.name and a.name.rsplit(".", 1)[0].endswith("linalg") and T.isnum(r.args[1]) and not r.kw and L.ndim(x) != 1:
        # of a matrix this is the induced norm, not that of its entries
        r = mk("norm", r.args, data="induced" if L.ndim(x) == 2 else "maybe induced")
    return L.newref(r)


def norm(L, x, a, pos):
    o = a.t(pos, "ord", "p", default=NONE)
    kw = {}
    ax = a.v(None, "axis", "dim")
    if ax is not None and L.t(ax) is not NONE:
        kw["axis"] = L.t(ax)
    return mk("norm", (x, o), kw)


@num("outer", "ger")
def _outer(L, a):
    return L.newref(mk("outer", (a.t(0), a.t(1))))


@num("kron")
def _kron(L, a):
    return L.newref(mk("kron", (a.t(0), a.t(1))))


@num("tile", "repeat")
def _tile(L, a):
    raise NotImplementedError


NUM["tile"] = lambda L, a: L.newref(mk("tile", (a.t(0, "A"), shapearg(L, a.v(1, "reps")))))
NUM["repeat"] = lambda L, a: L.newref(mk("repeat", (a.t(0), a.t(1, "repeats")), {k: L.t(v) for k, v in a.kw.items() if k in ("axis",)}))


@num("triu")
def _triu(L, a):
    k = a.t(1, "k", "diagonal", default=const(0))
    return L.newref(mk("triu", (a.t(0, "m"), k)))


@num("tri")
def _tri(L, a):
    n = a.t(0, "N")
    m = a.t(1, "M", default=NONE)
    k = a.t(2, "k", default=T.const(0))
    return L.newref(mk("tril", (mk("full", (mk("tuple", (n, n if m is NONE else m)), T.const(1))), k)))


@num("tril")
def _tril(L, a):
    k = a.t(1, "k", "diagonal", default=const(0))
    return L.newref(mk("tril", (a.t(0, "m"), k)))


@num("triu_indices")
def _triui(L, a):
    return L.newref(mk("triu_indices", (a.t(0, "n"), a.t(1, "k", default=const(0)))))


@num("tril_indices")
def _trili(L, a):
    return L.newref(mk("tril_indices", (a.t(0, "n"), a.t(1, "k", default=const(0)))))


@num("triu_indices_from")
def _triuif(L, a):
    return L.newref(mk("triu_indices", (L.dim(a.t(0), 0), a.t(1, "k", default=const(0)))))


@num("tril_indices_from")
def _trilif(L, a):
    return L.newref(mk("tril_indices", (L.dim(a.t(0), 0), a.t(1, "k", default=const(0)))))


@num("diag_indices", )
def _di(L, a):
    return L.newref(mk("diagidx"))


NUM["diag_indices_from"] = _di


@num("fill_diagonal")
def _filld(L, a):
    x, v = a.v(0, "a"), a.t(1, "val")
    if isinstance(x, Ref):
        old = L.t(x)
        L.e.event("store", base=old, idx=mk("diagidx"), value=v, aug=None, origins=frozenset(L.e.origins(x)), cid=x.cid)
        L.e.write(x, mk("store", (old, mk("diagidx"), v)), "fill_diagonal", idx=mk("diagidx"), value=v)
    return ConstV(None)


@num("copyto")
def _copyto(L, a):
    x = a.v(0, "dst")
    if isinstance(x, Ref):
        L.e.write(x, L.t(a.v(1, "src")), "copyto")
    return ConstV(None)


@num("put", "place", "putmask", "put_along_axis")
def _put(L, a):
    x = a.v(0)
    if isinstance(x, Ref):
        L.e.write(x, mk("store", (L.t(x), a.t(1), a.t(2))), "put")
    return ConstV(None)


@num("vstack", "row_stack")
def _vstack(L, a):
    ts = cat(L, a.v(0, "tup", "tensors"))
    return L.newref(mk("vstack", ts if ts is not None else (a.t(0),)))


def fractional(L, t):
    """may a scalar taken for an index hold a fraction (a sum of data, a running total)?"""
    return any(x.op == "sum" and not (L.boolish(x.args[0]) or L.e.kindfacts.get(x.args[0]) == "int" or L.intvec(x.args[0])) or x.op == "mu"
               and fractional_mu(L, x) for x in T.subterms(t, True))


def fractional_mu(L, x):
    n = T.mu_info(x).get("next")
    return n is None or not all(y.op != "mu" or y is x for y in T.subterms(n, True)) or any(
        y.op not in ("const", "dim", "size", "len", "count", "add", "sub", "mul", "phi", "mu", "toint") for y in T.subterms(n, True))


@num("column_stack")
def _colstack(L, a):
    ts = cat(L, a.v(0, "tup"))
    if ts is not None and all(L.ndim(x) == 1 for x in ts):
        return L.call("numpy.stack", [a.v(0, "tup"), ConstV(1)], {})
    if ts is not None and any(L.ndim(x) == 1 for x in ts):
        return L.newref(mk("call:numpy.column_stack", ts))
    return L.newref(mk("hstack", ts if ts is not None else (a.t(0),)))


@num("hstack")
def _hstack(L, a):
    ts = cat(L, a.v(0, "tup", "tensors"))
    if ts is not None and all(L.ndim(x) == 1 for x in ts):
        return L.newref(mk("concat", ts))
    return L.newref(mk("hstack", ts if ts is not None else (a.t(0),)))


@num("concatenate", "cat", "append", "concat")
def _concat(L, a):
    e = L.e
    if len(a.args) >= 2 and isinstance(a.args[1], (Ref, ListV)) and not L.scalarint(L.t(a.args[1])):
        ts, ax = [L.t(a.args[0]), L.t(a.args[1])], a.v(2, "axis")
    else:
        ts, ax = cat(L, a.v(0, "arrays", "tensors")), a.v(1, "axis", "dim")
    if ts is None:
        return L.newref(mk("concat", (a.t(0),)))
    axv = 0 if ax is None else (ax.v if isinstance(ax, ConstV) else None)
    if axv == 0 and any(L.ndim(x) == 2 for x in ts):
        return L.newref(mk("vstack", ts))
    if axv in (1, -1):
        return L.newref(mk("hstack", ts))
    return L.newref(mk("concat", ts, {} if axv == 0 else {"axis": L.t(ax)}))


@num("stack")
def _stack(L, a):
    v = a.v(0, "arrays", "tensors")
    ax = a.t(1, "axis", "dim", default=const(0))
    ts = cat(L, v)
    return L.newref(mk("stack", ts if ts is not None else (L.t(v),), {"axis": ax}))


@num("unbind")
def _unbind(L, a):
    x = a.t(0)
    ax = a.t(1, "dim", default=const(0))
    if T.is_c(ax, 0):
        return L.newref(x, L.e.origins(a.v(0)))
    return L.newref(mk("unbind", (x, ax)))


@num("reshape", "view")
def _reshape(L, a):
    v = a.v(0, "a", "input")
    return reshape_val(L, v, shapearg(L, a.v(1, "shape", "newshape")), order(L, a))


def order(L, a):
    """memory order argument: None for the default"""
    o = a.kw.get("order")
    if o is None:
        return None
    t = L.t(o)
    return None if T.is_c(t, "C") else "F" if T.is_c(t, "F") else "?"


def reshape_val(L, v, shp, o=None):
    e = L.e
    t = L.t(v)
    if o is not None and shp.op == "tuple":
        nd = L.ndim(t)
        if o == "F" and nd in (1, 2) and len(shp.args) in (1, 2):
            src = T.transpose(t) if nd == 2 else t
            r = reshape_val(L, e.ref(src, None, e.origins(v)), T.tup(list(reversed(shp.args))))
            t = L.t(r)
            return e.ref(T.transpose(t) if len(shp.args) == 2 else t, None, e.origins(v))
        return e.ref(mk("reshaped", (t, shp), data=o), None, e.origins(v))
    if shp.op == "tuple" and len(shp.args) == 1 and T.is_c(shp.args[0], -1):
        return ravel_val(L, v)
    if t.op == "ravel":
        t = t.args[0]
    if t.op == "reshape":
        t = t.args[0]
    nd = L.ndim(t)
    if shp.op == "tuple" and nd == len(shp.args) and all(L.dim(t, i) is s for i, s in enumerate(shp.args)):
        return e.ref(t, None, e.origins(v))
    return e.ref(mk("reshape", (t, shp)), (v.cid, ("reshape", shp)) if contiguous_vector(L, v, t) else None, e.origins(v))


def contiguous_vector(L, v, t):
    """v is a vector whose entries lie side by side in memory, so that reshaping it only makes a view"""
    if not isinstance(v, Ref) or L.ndim(t) != 1:
        return False
    rec = L.e.st.heap[v.cid]
    if not isinstance(rec, Arr):
        return False
    if rec.base is None:
        return t.op in ("store", "full", "empty", "arange")
    base = L.e.st.heap[rec.base[0]]
    return rec.base[1][0] == "idx" and L.scalarint(rec.base[1][1]) and isinstance(base, Arr) and base.base is None


def ravel_val(L, v, copy=False, o=None):
    t = L.t(v)
    if o is not None and L.ndim(t) != 1:
        if o == "F" and L.ndim(t) == 2:
            t = mk("ravel", (T.transpose(t),))
        else:
            t = mk("reshaped", (t,), data=o)
        return L.e.ref(t, None, () if copy else L.e.origins(v))
    if t.op in ("ravel",):
        pass
    elif L.ndim(t) == 1:
        pass
    else:
        t = mk("ravel", (t.args[0] if t.op == "reshape" else t,))
    return L.e.ref(t, None, () if copy else L.e.origins(v))


@num("ravel", "flatten")
def _ravel(L, a):
    return ravel_val(L, a.v(0), o=order(L, a))


@num("squeeze", "expand_dims", "unsqueeze")
def _squeeze(L, a):
    v = a.v(0)
    if tail(a.name or "") == "squeeze" and len(a.args) == 1 and not a.kw:
        return L.e.ref(mk("squeeze", (L.t(v),)), None, L.e.origins(v))
    return L.e.ref(mk("reshaped", (L.t(v),), data=L.e.uid()), None, L.e.origins(v))


@num("shape")
def _shape(L, a):
    t = L.shapeof(a.t(0))
    return TupV([L.fresh(x) for x in t.args]) if t.op == "tuple" else L.newref(t)


@num("size")
def _size(L, a):
    if len(a.args) > 1:
        return L.fresh(L.dim(a.t(0), L.e.dephi(a.args[1]).v))
    return L.fresh(L.size(a.t(0)))


@num("ndim")
def _ndim(L, a):
    n = L.ndim(a.t(0))
    return ConstV(n) if n is not None else L.newref(mk("ndim", (a.t(0),)))


@num("argsort")
def _argsort(L, a):
    k = {}
    if "kind" in a.kw:
        k["kind"] = L.t(a.kw["kind"])
    return L.newref(mk("argsort", (a.t(0),), k))


@num("sort")
def _sort(L, a):
    kw = {k: L.t(v) for k, v in a.kw.items() if k == "axis"}
    return L.newref(mk("sort", (a.t(0),), kw))


@num("diff")
def _diff(L, a):
    return L.newref(mk("diff", (a.t(0),), {k: L.t(v) for k, v in a.kw.items()}))


@num("fromiter")
def _fromiter(L, a):
    e = L.e
    v = a.v(0)
    if isinstance(v, IterV) and v.kind == "map":
        v = L_mapped(L, v)
    if isinstance(v, ListV):
        return L.newref(mk("fromiter", (L.t(v),)))
    return L.newref(mk("fromiter", (L.t(v),)))


def L_mapped(L, v):
    e = L.e
    el = e.elem(v)
    return IterV("gen", {"items": [(el, frozenset({"maybe"}))]})


@num("isin", "in1d")
def _isin(L, a):
    return L.newref(mk("isin", (a.t(0), a.t(1))))


@num("array_equal", "allclose", "isclose", "array_equiv", "equal_")
def _aeq(L, a):
    return L.newref(mk("allclose", (a.t(0), a.t(1))))


@num("delete")
def _delete(L, a):
    return L.newref(mk("delete", (a.t(0), a.t(1)), {k: L.t(v) for k, v in a.kw.items()}))


@num("unique", "linspace", "meshgrid", "roll", "flip", "quantile", "percentile", "histogram", "interp", "searchsorted", "einsum",
     "ix_", "ndenumerate", "ndindex", "nan_to_num", "cross", "insert", "pad", "block", "apply_along_axis", "vectorize",
     "svd", "eigh", "eigvalsh", "eig", "cholesky", "qr", "matrix_rank", "lstsq", "gather", "index_select", "masked_select",
     "logsumexp", "softmax", "dropout", "mse_loss", "take", "compress", "rot90", "broadcast_to", "multi_dot", "bincount")
def _generic(L, a):
    return None


for _n in ("unique", "linspace", "roll", "flip", "quantile", "percentile", "searchsorted", "ix_", "ndenumerate", "nan_to_num",
           "block", "svd", "eigh", "eigvalsh", "eig", "cholesky", "qr", "matrix_rank", "lstsq", "take", "rot90", "broadcast_to",
           "bincount", "softmax", "logsumexp", "mse_loss", "einsum", "meshgrid", "histogram", "interp", "ndindex", "insert", "pad"):
    def _mkg(nm):
        def f(L, a):
            return L.newref(mk("np:" + nm, [L.t(x) for x in a.args], {k: L.t(v) for k, v in a.kw.items()}))
        return f
    NUM[_n] = _mkg(_n)
for _n in ("cross", "apply_along_axis", "vectorize", "gather", "index_select", "masked_select", "dropout", "compress", "multi_dot"):
    NUM.pop(_n, None)


@num("block_diag")
def _bd(L, a):
    return L.newref(mk("blockdiag", [L.t(x) for x in a.args]))


@num("linear")
def _linear(L, a):
    x, w, b = a.t(0, "input"), a.t(1, "weight"), a.t(2, "bias", default=NONE)
    r = mk("matmul", (x, T.transpose(w)))
    if b is not NONE:
        r = T.binop("add", r, b)
    return L.newref(r)


@num("no_grad_")
def _ng(L, a):
    return None


for _k in ("dot_", "no_grad_", "repeat_"):
    NUM.pop(_k, None)


# ------------------------------------------------------------------ other library functions
FUN = {}


def fun(*names):
    def deco(f):
        for n in names:
            FUN[n] = f
        return f
    return deco


@fun("scipy.optimize.minimize", "minimize")
def _minimize(L, a):
    e = L.e
    f = a.v(0, "fun")
    x0 = a.t(1, "x0")
    k = e.uid()
    x = mk("optx", (x0,) if x0 is not None else (), data=k)
    e.intervals.setdefault(x, (float("-inf"), float("inf")))
    xv = e.ref(x)
    extra = a.v(2, "args")
    xs = e.known_items(extra) if extra is not None else []
    if extra is not None and xs is None:
        xs = [extra]
    outer, e.ev = e.ev, []
    s0 = e.st.fork()
    r = e.callv(f, [xv] + list(xs), {})
    ot = e.term(r) if e.st is not None else mk("opaque", data="objective-raises")
    if isinstance(r, TupV) and r.items:
        ot = e.term(r.items[0])
    s1 = e.st
    e.st = s0
    body, e.ev = e.ev, outer
    e.ev.append(Node("call", {"qual": "<objective>", "loc": e.loc, "args": {}, "fid": None, "node": None, "gen": False}, [body]))
    kw = {n: L.t(v) for n, v in a.kw.items() if n not in ("fun", "x0", "args")}
    if len(a.args) > 3:
        kw["method"] = L.t(a.args[3])
    ev = e.event("minimize", objective=ot, x=x, x0=x0, kw=kw, raw=r)
    res = L.newref(mk("optres", (ot,) + ((x0,) if x0 is not None else ()), data=k))
    e.st.heap[("fld", res.cid, "x")] = e.ref(x)
    return res


@fun("torch.optim.AdamW", "torch.optim.Adam", "torch.optim.SGD", "torch.optim.RMSprop", "torch.optim.Adamax", "torch.optim.NAdam")
def _optim(L, a):
    e = L.e
    p = a.v(0, "params")
    kw = {k: L.t(v) for k, v in a.kw.items() if k != "params"}
    if len(a.args) > 1:
        kw["lr"] = L.t(a.args[1])
    t = mk("new:torch.optim", (L.t(p),), kw, data=e.uid())
    r = L.newref(t)
    e.event("optimizer", params=L.t(p), kw=kw, term=t, cid=r.cid)
    return r


@fun("squareform")
def _sqf(L, a):
    x = a.t(0)
    if x.op == "squareform" :
        return L.newref(x.args[0])
    return L.newref(mk("squareform" if L.ndim(x) != 2 else "condensed", (x,)))


@fun("pdist")
def _pdist(L, a):
    return L.newref(mk("pdist", (a.t(0), a.t(1, "metric", default=const("euclidean")))))


@fun("rankdata")
def _rank(L, a):
    return L.newref(mk("rankdata", (a.t(0), a.t(1, "method", default=const("average")))))


@fun("train_test_split")
def _tts(L, a):
    e = L.e
    x = a.t(0)
    kw = {k: L.t(v) for k, v in a.kw.items()}
    k = e.uid()
    e.event("split", term=x, kw=kw)
    rs = kw.get("random_state", NONE)
    if rs is NONE:
        e.event("draw", gen=mk("lib", data="numpy-global"), method="train_test_split", term=x, origins=frozenset(), args=(), kw=kw)
    xs = []
    for n, v in enumerate(a.args):
        xs.append(L.newref(mk("split", (L.t(v),), kw, data=("train", n))))
        xs.append(L.newref(mk("split", (L.t(v),), kw, data=("valid", n))))
    return TupV(xs)


@fun("distance_correlation_t_test", "dcor.independence.distance_correlation_t_test", "distance_covariance_test",
     "dcor.distance_correlation_t_test")
def _dct(L, a):
    return L.newref(mk("dctest", (a.t(0), a.t(1))))


@fun("os.path.join")
def _pj(L, a):
    return L.newref(L.pathjoin([L.t(x) for x in a.args]))


@fun("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
def _path(L, a):
    ts = [L.t(x) for x in a.args]
    return L.newref(L.pathjoin(ts) if ts else mk("path", (const("."),)))


@fun("os.fspath", "os.path.abspath", "os.path.normpath", "os.path.expanduser", "os.path.realpath")
def _fsp(L, a):
    return L.newref(a.t(0))


@fun("os.makedirs", "os.mkdir")
def _mkdir(L, a):
    L.e.event("mkdir", path=a.t(0), kw={k: L.t(v) for k, v in a.kw.items()})
    return ConstV(None)


@fun("torch.save")
def _tsave(L, a):
    L.e.event("save", what=a.t(0, "obj"), v=a.v(0, "obj"), path=a.t(1, "f"), how="torch.save")
    return ConstV(None)


@fun("pickle.dump", "json.dump", "joblib.dump")
def _pdump(L, a):
    L.e.event("save", what=a.t(0, "obj"), v=a.v(0, "obj"), path=a.t(1, "file"), how="dump")
    return ConstV(None)


@fun("numpy.save", "numpy.savez", "numpy.savetxt", "numpy.savez_compressed")
def _npsave(L, a):
    L.e.event("save", what=a.t(1, "arr"), v=a.v(1, "arr"), path=a.t(0, "file"), how="np.save")
    return ConstV(None)


@fun("pickle.dumps")
def _dumps(L, a):
    return L.newref(mk("dumps", (a.t(0),)))


@fun("shutil.rmtree", "os.remove", "os.unlink", "os.rmdir", "os.rename", "os.replace", "shutil.move", "shutil.copy", "shutil.copyfile")
def _fsop(L, a):
    L.e.event("fsop", path=a.t(0), args=tuple(L.t(x) for x in a.args))
    return ConstV(None)


@fun("itertools.permutations")
def _perms(L, a):
    xs = [L.t(x) for x in a.args]
    src = xs[0]
    if src.op == "arange":
        src = mk("range", src.args)
    return L.newref(mk("permutations", [src] + xs[1:]))


@fun("itertools.product", "itertools.combinations", "itertools.combinations_with_replacement")
def _prod(L, a):
    return L.newref(mk("itertools", [L.t(x) for x in a.args], {k: L.t(v) for k, v in a.kw.items()}, data=(tail(a.name or "?"), L.e.uid())))


@fun("itertools.chain")
def _chain(L, a):
    items = []
    for x in a.args:
        k = L.e.known_items(x)
        if k is not None:
            items += [(y, frozenset()) for y in k]
        else:
            items.append((L.e.elem(x), frozenset({"maybe"})))
    return IterV("gen", {"items": items})


@fun("functools.partial")
def _partial(L, a):
    return PartialV(a.args[0], list(a.args[1:]), dict(a.kw))


@fun("functools.reduce")
def _reduce(L, a):
    e = L.e
    items = e.known_items(a.args[1])
    if items is None:
        return L.newref(mk("call:functools.reduce", [L.t(x) for x in a.args]))
    acc = a.args[2] if len(a.args) > 2 else None
    for x in items:
        acc = x if acc is None else e.callv(a.args[0], [acc, x], {})
    return acc if acc is not None else ConstV(None)


@fun("collections.deque")
def _deque(L, a):
    return builtin_list(L, a.args[0] if a.args else None, "deque")


@fun("collections.defaultdict", "collections.OrderedDict", "collections.Counter")
def _dd(L, a):
    return DictV(L.e.cell(DObj({}, "defaultdict")))


@fun("torch.nn.functional.dropout", "torch.nn.functional.alpha_dropout", "torch.nn.functional.feature_dropout", "torch.dropout")
def _fdrop(L, a):
    e = L.e
    x, p = a.t(0, "input"), a.t(1, "p", default=const(0.5))
    on = a.t(2, "training", "train", default=TRUE)
    tv = e.truth(on)
    if tv is False:
        return a.v(0, "input")
    if tv is None:
        e.pc.append(on)
    d = mk("draw", (mk("lib", data="torch-global"), p), {"size": L.shapeof(x)}, data=("bernoulli", e.uid()))
    e.event("draw", gen=mk("lib", data="torch-global"), method="bernoulli", term=d, origins=frozenset(), args=(p,), kw={})
    if tv is None:
        e.pc.pop()
    r = mk("mul", (x, d))
    return L.newref(r if tv else phi(on, r, x))


@fun("torch.distributions.Normal", "torch.distributions.normal.Normal")
def _tdnormal(L, a):
    return L.newref(mk("dist:Normal", (a.t(0, "loc"), a.t(1, "scale"))))


@fun("torch.addcmul")
def _addc(L, a):
    m = mk("mul", (a.t(1, "tensor1"), a.t(2, "tensor2")))
    v = a.t(None, "value", default=const(1))
    return L.newref(binary(L, "add", a.t(0, "input"), m if v is const(1) else mk("mul", (m, v))))


@fun("torch.nn.ModuleList", "torch.nn.Sequential", "torch.nn.ParameterList")
def _modlist(L, a):
    raise NotImplementedError


def _ml(kind):
    def f(L, a):
        if kind == "Sequential":
            return L.e.newlist(list(a.args), "Sequential")
        r = builtin_list(L, a.args[0] if a.args else a.kw.get("modules"), "ModuleList")
        return r
    return f


def literal(t):
    """the constant parts of a computed name"""
    if T.is_const(t):
        return (str(T.cval(t)),)
    return tuple(x for a in t.args for x in literal(a) if T.is_const(a)) if t.op in ("strcat", "add", "fmt") else (None,)


FUN["torch.nn.ModuleList"] = FUN["torch.nn.ParameterList"] = _ml("ModuleList")
FUN["torch.nn.Sequential"] = _ml("Sequential")


@fun("torch.nn.ModuleDict", "torch.nn.ParameterDict")
def _md(L, a):
    e = L.e
    if not a.args or not isinstance(a.args[0], DictV):
        return DictV(e.cell(DObj({}, "ModuleDict")))
    r = e.st.heap[a.args[0].cid]
    return DictV(e.cell(DObj(dict(r.entries), "ModuleDict", r.extra)))


@fun("torch.nn.Parameter", "torch.nn.parameter.Parameter")
def _param(L, a):
    v = a.v(0, "data")
    r = L.e.ref(L.t(v) if v is not None else mk("opaque", data="param"), (v.cid, ("same",)) if isinstance(v, Ref) else None,
                L.e.origins(v) if v is not None else ())
    L.e.parameters.add(r.cid)
    rg = a.t(1, "requires_grad")
    if rg is not None:
        L.e.event("param-grad", cid=r.cid, target=L.t(r), origins=frozenset(L.e.origins(r)), value=rg)
    return r


@fun("torch.no_grad", "torch.inference_mode", "torch.enable_grad", "torch.set_grad_enabled")
def _ng2(L, a):
    return L.newref(mk("no_grad"))


FUN["torch.enable_grad"] = lambda L, a: L.newref(mk("enable_grad"))
FUN["torch.set_grad_enabled"] = lambda L, a: L.newref(mk("no_grad") if a.t(0) is FALSE else mk("grad?", (a.t(0),)))


@fun("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "print", "logging.info", "logging.warning")
def _warn(L, a):
    L.e.event("warn")
    return ConstV(None)


@fun("warnings.catch_warnings")
def _cw(L, a):
    return L.newref(mk("catch_warnings"))


DISTS = ("chi2", "norm", "t", "f", "beta", "expon", "uniform", "gamma")


def dist_fn(name, d, x, rest=(), kw=()):
    """one spelling for the distribution functions: isf(q) = ppf(1 - q), sf(x) = 1 - cdf(x)"""
    one = const(1)
    if name == "isf":
        return mk("dist.ppf", [d, T.binop("sub", one, x)] + list(rest), kw)
    if name == "sf":
        return T.binop("sub", one, mk("dist.cdf", [d, x] + list(rest), kw))
    return mk("dist." + name, [d, x] + list(rest), kw)


def _dist_decl(n):
    @fun("scipy.stats." + n)
    def _frozen(L, a, n=n):
        return L.newref(mk("dist", [L.t(x) for x in a.args], {k: L.t(x) for k, x in a.kw.items()}, data=n))
    for m in ("ppf", "cdf", "sf", "isf"):
        @fun(f"scipy.stats.{n}.{m}")
        def _f(L, a, n=n, m=m):
            ts = [L.t(x) for x in a.args]
            kw = {k: L.t(x) for k, x in a.kw.items()}
            if not ts:
                ts = [kw.pop("x" if "x" in kw else "q")]
            return L.newref(dist_fn(m, mk("dist", ts[1:], kw, data=n), ts[0]))


for _n in DISTS:
    _dist_decl(_n)


@fun("contextlib.suppress")
def _suppress(L, a):
    return L.newref(mk("suppress"))


@fun("multiprocessing.cpu_count", "os.cpu_count")
def _cpu(L, a):
    return L.newref(mk("cpu_count"))


@fun("torch.cuda.is_available")
def _cuda(L, a):
    return L.newref(mk("cuda_available"))


@fun("torch.device")
def _dev(L, a):
    return L.newref(mk("device", (a.t(0),)))


@fun("datetime.datetime.now", "time.time", "time.perf_counter", "datetime.datetime.today", "time.monotonic", "datetime.datetime.utcnow")
def _now(L, a):
    return L.newref(mk("clock", data=L.e.uid()))


@fun("os.urandom", "secrets.randbits", "secrets.token_bytes", "uuid.uuid4", "secrets.randbelow")
def _ur(L, a):
    t = mk("draw", (mk("lib", data="os-entropy"),), data=("urandom", L.e.uid()))
    L.e.event("draw", gen=mk("lib", data="os-entropy"), method="urandom", term=t, origins=frozenset(), args=(), kw={})
    return L.newref(t)


@fun("copy.copy", "copy.deepcopy")
def _copyf(L, a):
    return copy_val(L, a.v(0))


def copy_val(L, v):
    e = L.e
    if isinstance(v, PhiV):
        v = e.dephi(v)
    if isinstance(v, Ref):
        return e.ref(L.t(v))
    if isinstance(v, ListV):
        r = e.st.heap[v.cid]
        return ListV(e.cell(LObj([(copy_val(L, x), c) for x, c in r.items], r.kind)))
    if isinstance(v, DictV):
        r = e.st.heap[v.cid]
        return DictV(e.cell(DObj({k: copy_val(L, x) for k, x in r.entries.items()}, r.kind,
                                 [(k, copy_val(L, x), c) for k, x, c in r.extra])))
    if isinstance(v, TupV):
        return TupV([copy_val(L, x) for x in v.items])
    if isinstance(v, ObjV):
        r = e.st.heap[v.cid]
        return ObjV(e.cell(OObj(r.cls, {k: copy_val(L, x) if isinstance(x, (Ref, ListV, DictV, TupV)) else x for k, x in r.fields.items()})))
    return v


def ctor(L, name, a):
    e = L.e
    kw = {k: L.t(v) for k, v in a.kw.items()}
    ts = [L.t(x) for x in a.args]
    t = mk("new:" + name, ts, kw)
    if tail(name) in ("AdamW", "Adam", "SGD", "RMSprop"):
        return _optim(L, a)
    if name.startswith("torch.nn.") and tail(name) in ("Sigmoid", "ReLU", "Tanh", "Softplus", "Identity"):
        return L.newref(mk("act:" + tail(name)))
    r = L.newref(t)
    if name.startswith("torch.nn.") or name.startswith("torch.optim"):
        e.libmods[r.cid] = name
    if name in ("torch.nn.Linear", "torch.nn.Conv1d", "torch.nn.Bilinear", "torch.nn.Embedding"):
        e.event("draw", gen=mk("lib", data="torch-global"), method="layer-init", term=t, origins=frozenset(), args=(), kw={})
        names = ["in_features", "out_features", "bias"]
        for i, x in enumerate(ts):
            if i < 3:
                kw.setdefault(names[i], x)
        r = L.newref(mk("new:" + name, (), kw, data=e.uid()))
        e.libmods[r.cid] = name
    e.event("ctor", name=name, args=tuple(ts), kw=kw, v=list(a.args))
    return r


# ------------------------------------------------------------------ builtins
def builtin_list(L, v, kind):
    e = L.e
    if v is None:
        return e.newlist([], kind)
    if isinstance(v, PhiV):
        v = e.dephi(v)
    if kind in ("set", "frozenset"):
        kind = "set"
    items = e.known_items(v)
    if items is not None:
        if kind == "set":
            for x in items:
                e.event("hash", value=L.t(x), v=x)
        return e.newlist(items, kind)
    if isinstance(v, ListV):
        rec = e.st.heap[v.cid]
        if kind == "set":
            for x, _ in rec.items:
                e.event("hash", value=L.t(x), v=x)
        return ListV(e.cell(LObj(rec.items, kind)))
    if isinstance(v, IterV) and v.kind == "gen":
        if kind == "set":
            for x, _ in v.data["items"]:
                e.event("hash", value=L.t(x), v=x)
        return ListV(e.cell(LObj(v.data["items"], kind)))
    if isinstance(v, Ref) and L.t(v).op in ("sortedby",):
        return v
    e._lid += 1
    lid = e._lid
    e.loopiter[lid] = L.t(v)
    e.loops.append(lid)
    e.pc.append(mk("inloop", data=lid))
    x = e.elem(v, lid)
    e.pc.pop()
    e.loops.pop()
    if e.st is None:
        return ConstV(None)
    if kind == "set":
        e.event("hash", value=L.t(x), v=x)
    return ListV(e.cell(LObj([(x, frozenset({f"loop:{lid}"}))], kind)))


def builtin(L, n, a):
    e = L.e
    args, kw = a.args, a.kw
    if n == "len":
        return length(L, args[0])
    if n == "range":
        xs = [L.t(x) for x in args]
        if len(xs) == 2 and T.is_c(xs[0], 0):
            xs = [xs[1]]
        return L.newref(mk("range", xs))
    if n in ("list", "tuple", "set", "frozenset"):
        if n == "tuple" and args:
            v = e.dephi(args[0]) if isinstance(args[0], PhiV) else args[0]
            items = e.known_items(v)
            if items is not None:
                return TupV(items)
            if isinstance(v, Ref):
                return L.newref(mk("totuple", (L.t(v),)), e.origins(v))
        return builtin_list(L, args[0] if args else None, n)
    if n == "dict":
        ent, extra = {}, []
        if args and isinstance(args[0], DictV):
            r = e.st.heap[args[0].cid]
            ent.update(r.entries)
            extra = list(r.extra)
        elif args:
            items = e.known_items(args[0])
            if items is not None:
                for x in items:
                    k = e.known_items(x)
                    if k and len(k) == 2:
                        ent[e.dictkey(k[0])] = k[1]
            else:
                x = e.elem(args[0])
                k = e.known_items(x)
                if k and len(k) == 2:
                    extra.append((L.t(k[0]), k[1], frozenset({"maybe"})))
        ent.update(kw)
        return DictV(e.cell(DObj(ent, "dict", extra)))
    if n in ("sum", "any", "all", "max", "min"):
        return aggregate(L, n, a)
    if n == "abs":
        return L.fresh(un(L, "abs", L.t(args[0])))
    if n == "round":
        if len(args) > 1:
            return L.newref(mk("round", (L.t(args[0]), L.t(args[1]))))
        return L.fresh(un(L, "round", L.t(args[0])))
    if n == "divmod":
        return TupV([L.fresh(L.binop_term("floordiv", L.t(args[0]), L.t(args[1]))), L.fresh(L.binop_term("mod", L.t(args[0]), L.t(args[1])))])
    if n == "pow":
        return L.fresh(L.binop_term("pow", L.t(args[0]), L.t(args[1])))
    if n == "int":
        if not args:
            return ConstV(0)
        if isinstance(args[0], ConstV):
            try:
                return ConstV(int(args[0].v))
            except Exception:
                pass
        t = L.t(args[0])
        return L.fresh(t if L.scalarint(t) and not fractional(L, t) else mk("toint", (t,)))
    if n == "float":
        if not args:
            return ConstV(0.0)
        if isinstance(args[0], ConstV):
            try:
                return ConstV(float(args[0].v))
            except Exception:
                pass
        return L.fresh(L.t(args[0]))
    if n == "bool":
        if not args:
            return ConstV(False)
        c = e.truthterm(args[0])
        return e.val(c if c.op == "const" or L.boolish(c) else mk("toBool", (c,)))      # a number is 0 or 1 from here on
    if n == "str":
        if not args:
            return ConstV("")
        if isinstance(args[0], ConstV):
            return ConstV(str(args[0].v))
        t = L.t(args[0])
        if t.op in ("path", "pathjoin"):
            return L.newref(t.args[0] if t.op == "path" else t)
        return L.newref(L.tostr(t))
    if n in ("repr", "format", "chr", "ascii"):
        return L.newref(L.tostr(L.t(args[0]))) if args else ConstV("")
    if n == "enumerate":
        st = a.v(1, "start")
        s = st.v if isinstance(st, ConstV) else 0 if st is None else L.t(st)
        return IterV("enumerate", (args[0], s))
    if n == "zip":
        return IterV("zip", tuple(args))
    if n == "map":
        return IterV("map", (args[0], tuple(args[1:])))
    if n == "filter":
        return IterV("filter", (args[0], args[1]))
    if n == "reversed":
        return IterV("rev", args[0])
    if n == "sorted":
        return sorted_(L, a)
    if n == "iter":
        return args[0]
    if n == "next":
        v = args[0]
        el = e.elem(v)
        if isinstance(v, IterV):
            v.used = True
        return el
    if n == "print":
        if "file" in kw and not (isinstance(kw["file"], ConstV) and kw["file"].v is None):
            e.event("write", file=L.t(kw["file"]), what=L.t(TupV(list(args))) if len(args) != 1 else L.t(args[0]))
            return ConstV(None)
        e.event("print", args=tuple(L.t(x) for x in args), kw={k: L.t(v) for k, v in kw.items()})
        return ConstV(None)
    if n == "open":
        mode = a.t(1, "mode", default=const("r"))
        t = mk("file", (a.t(0, "file"), mode))
        e.event("open", path=a.t(0, "file"), mode=mode)
        return L.newref(t)
    if n == "isinstance":
        return isinst(L, args[0], args[1])
    if n == "issubclass":
        return L.newref(mk("issubclass", (L.t(args[0]), L.t(args[1]))))
    if n == "hasattr":
        if isinstance(args[1], ConstV):
            t = e.hasattr(args[0], args[1].v)
            tv = e.truth(t)
            return ConstV(tv) if tv is not None else e.val(t)
        return L.newref(mk("hasattr", (L.t(args[0]), L.t(args[1]))))
    if n == "getattr":
        if isinstance(args[1], ConstV) and isinstance(args[1].v, str):
            if len(args) > 2:
                h = e.hasattr(args[0], args[1].v)
                tv = e.truth(h)
                if tv is False:
                    return args[2]
                if tv is None:
                    x = e.getattr(args[0], args[1].v, quiet=True)
                    x = e.dephi(x) if isinstance(x, PhiV) else x
                    return e.joinval(h, x, args[2], e.st, e.st, e.st)
            x = e.getattr(args[0], args[1].v)
            return x
        if isinstance(args[0], ObjV):
            key = literal(L.t(args[1]))
            hits = [v for nt, v in e.dynreg.get(args[0].cid, []) + e.dynattr.get(args[0].cid, []) if literal(nt) == key]
            if len(hits) == 1:
                return hits[0]
        return L.newref(mk("getattr", [L.t(x) for x in args]))
    if n in ("setattr", "__setattr__"):
        if isinstance(args[1], ConstV) and isinstance(args[1].v, str):
            e.setattr(args[0], args[1].v, args[2], raw=n != "setattr")
        else:
            e.event("setattr-dynamic", target=L.t(args[0]), name=L.t(args[1]), value=L.t(args[2]))
            o = args[0]
            if isinstance(o, ObjV):
                e.dynattr.setdefault(o.cid, []).append((L.t(args[1]), args[2]))
        return ConstV(None)
    if n == "delattr":
        if isinstance(args[0], ObjV) and isinstance(args[1], ConstV):
            r = e.st.heap[args[0].cid]
            f = dict(r.fields)
            f.pop(args[1].v, None)
            e.st.heap[args[0].cid] = OObj(r.cls, f)
        return ConstV(None)
    if n == "vars":
        return e.getattr(args[0], "__dict__") if args else DictV(e.cell(DObj({})))
    if n == "type":
        v = args[0]
        if isinstance(v, ObjV):
            return ClsV(e.st.heap[v.cid].cls)
        return L.newref(mk("typeof", (L.t(v),)))
    if n == "callable":
        return ConstV(True) if isinstance(args[0], (FuncV, BoundV, ClsV, LibV, LibM)) else L.newref(mk("callable", (L.t(args[0]),)))
    if n == "id":
        return L.newref(mk("id", (L.t(args[0]),)))
    if n == "hash":
        e.event("hash", value=L.t(args[0]), v=args[0])
        return L.newref(mk("hash", (L.t(args[0]),)))
    if n == "slice":
        ts = [L.t(x) for x in args]
        if len(ts) == 1:
            ts = [NONE] + ts
        ts += [NONE] * (3 - len(ts))
        return SliceV(*ts)
    if n == "object":
        return L.newref(mk("object", data=e.uid()))
    if n.endswith("Error") or n.endswith("Exception") or n.endswith("Warning") or n in ("StopIteration", "KeyboardInterrupt"):
        return L.newref(mk("excobj", [L.t(x) for x in args], data=n))
    if n in ("ord", "input", "globals", "locals", "dir", "eval", "exec", "complex", "bytes", "bytearray", "memoryview"):
        return L.newref(mk("call:builtins." + n, [L.t(x) for x in args]))
    return L.newref(mk("call:builtins." + n, [L.t(x) for x in args]))


def length(L, v):
    e = L.e
    if isinstance(v, PhiV):
        v = e.dephi(v)
    k = e.known_items(v)
    if k is not None:
        return ConstV(len(k))
    if isinstance(v, ConstV) and isinstance(v.v, (str, tuple)):
        return ConstV(len(v.v))
    if isinstance(v, ListV):
        t = L.t(v)
        if len(t.args) == 1 and t.args[0].op == "many" and len(t.args[0].args) == 2:
            r = itlen(L, t.args[0].args[1])
            if r is not None:
                return L.fresh(r)
        return L.newref(mk("len", (t,)))
    if isinstance(v, (DictV, IterV)):
        return L.newref(mk("len", (L.t(v),)))
    t = L.t(v)
    if isinstance(v, ObjV):
        f, _ = e.st.heap[v.cid].cls.lookup("__len__")
        if f is not None:
            return e.callv(BoundV(f, v), [], {})
    if t.op in ("triu_indices", "tril_indices"):
        return ConstV(2)
    if t.op == "range":
        return L.fresh(itlen(L, t))
    return L.fresh(L.dim(t, 0))


def itlen(L, it):
    """length of an iterable term"""
    if it.op in ("range", "arange"):
        if len(it.args) == 1:
            return it.args[0]
        if len(it.args) == 2:
            return L.binop_term("sub", it.args[1], it.args[0])
        return None
    if it.op == "enumerate":
        return itlen(L, it.args[0])
    if L.ndim_positive(it):
        return L.dim(it, 0)
    return None


def aggregate(L, n, a):
    e = L.e
    args, kw = a.args, a.kw
    v = e.dephi(args[0]) if isinstance(args[0], PhiV) else args[0]
    if len(args) > 1 and n in ("max", "min"):
        op = {"max": "maximum", "min": "minimum"}[n]
        r = L.t(args[0])
        key = kw.get("key")
        if key is not None:
            return L.newref(mk("call:" + n, [L.t(x) for x in args]))
        cs = all(isinstance(x, ConstV) for x in args)
        if cs:
            return ConstV((max if n == "max" else min)(x.v for x in args))
        for x in args[1:]:
            r = T.binop(op, r, L.t(x))
        return L.newref(r)
    if n in ("max", "min"):
        key = kw.get("key")
        op = n + "by"
        if key is not None and not (isinstance(key, ConstV) and key.v is None):
            src = L.t(v)
            el = iterelem(L, v)
            k = e.callv(key, [el], {})
            return L.byterm(el, op, L.t(k), src)
        items = e.known_items(v)
        if items:
            r = L.t(items[0])
            for x in items[1:]:
                r = T.binop("maximum" if n == "max" else "minimum", r, L.t(x))
            return L.newref(r)
        if isinstance(v, Ref) and e.is_arrayish(v):
            return L.newref(mk(n, (L.t(v),)))
        src = L.t(v)
        el = iterelem(L, v)
        if isinstance(el, TupV):
            # lexicographic: first component decides
            return L.byterm(el, op, L.t(el.items[0]), src)
        return L.byterm(el, op, L.t(el), src)
    if n == "sum":
        items = e.known_items(v)
        if items is not None and len(items) <= 12:
            r = L.t(args[1]) if len(args) > 1 else const(0)
            for x in items:
                r = L.binop_term("add", r, L.t(x))
            return L.newref(r) if r.op != "const" else ConstV(T.cval(r))
        if isinstance(v, Ref):
            t = L.t(v)
            if L.ndim(t) == 1 or not L.ndim_positive(t):
                return L.newref(mk("sum", (t,)))
            return L.newref(mk("sum", (t,), {"axis": const(0)}))
        if isinstance(v, ListV) and len(e.st.heap[v.cid].items) == 0:
            return ConstV(0)
        return L.newref(mk("sum", (L.t(v),)))
    # any / all
    items = e.known_items(v)
    if items is not None and len(items) <= 12:
        r = TRUE if n == "all" else FALSE
        for x in items:
            c = e.truthterm(x)
            r = land(r, c) if n == "all" else lor(r, c)
        return e.val(r)
    t = L.t(v)
    if isinstance(v, Ref) and not L.boolish(t):
        t = astype(L, t, const("bool"))
    return L.newref(mk(n, (t,)))


def iterelem(L, v):
    e = L.e
    e._lid += 1
    lid = e._lid
    e.loopiter[lid] = L.t(v)
    e.loops.append(lid)
    e.pc.append(mk("inloop", data=lid))
    el = e.elem(v, lid)
    e.pc.pop()
    e.loops.pop()
    return el


def sorted_(L, a):
    e = L.e
    v = e.dephi(a.args[0]) if isinstance(a.args[0], PhiV) else a.args[0]
    key = a.kw.get("key")
    rev = a.t(None, "reverse", default=FALSE)
    src = L.t(v)
    items = e.known_items(v)
    if items is not None and all(isinstance(x, ConstV) for x in items) and key is None:
        try:
            return e.newlist([ConstV(x) for x in sorted([x.v for x in items], reverse=rev is TRUE)])
        except Exception:
            pass
    el = iterelem(L, v)
    if key is not None:
        k = L.t(e.callv(key, [el], {}))
    else:
        k = L.t(el.items[0]) if isinstance(el, TupV) and el.items else L.t(el)
    t = mk("sortedby", (L.t(el), k, src, rev))
    L.sorted_info[t] = {"elem": el, "key": k, "src": src, "op": ("minby", "maxby") if rev is FALSE else ("maxby", "minby")}
    return L.newref(t)


def isinst(L, v, cls):
    e = L.e
    if isinstance(v, PhiV):
        v = e.dephi(v)
    names = []
    for c in (e.known_items(cls) or [cls]) if isinstance(cls, TupV) else [cls]:
        names.append(c.name if isinstance(c, LibV) else (c.info.qual if isinstance(c, ClsV) else "?"))
    if isinstance(v, ObjV):
        m = [c.qual if isinstance(c, ClassInfo) else c.name for c in e.st.heap[v.cid].cls.mro()]
        return ConstV(any(n in m for n in names) or "builtins.object" in names)
    kinds = {"builtins.str": "str", "builtins.int": "int", "builtins.float": "float", "numpy.ndarray": "ndarray", "builtins.bool": "bool",
             "numpy.random.Generator": "generator", "torch.Tensor": "tensor", "builtins.list": "list"}
    if isinstance(v, ConstV):
        py = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool, "builtins.tuple": tuple}
        if all(n in py for n in names):
            return ConstV(any(isinstance(v.v, py[n]) for n in names))
        if all(n in kinds or n in py for n in names):
            return ConstV(any(n in py and isinstance(v.v, py[n]) for n in names))
    k = None
    if isinstance(v, Ref):
        t = L.t(v)
        k = e.kindfacts.get(t)
        if k == "boolarray":
            k = "ndarray"
        if k is None and L.ndim_positive(t):
            k = "ndarray"
    elif isinstance(v, ListV):
        k = "list"
    if k is not None and all(n in kinds for n in names):
        if k == "ndarray" and "torch.Tensor" in names:
            return L.newref(mk("isinstance", (L.t(v), mk("lib", data="|".join(names)))))
        return ConstV(k in [kinds[n] for n in names])
    return L.newref(mk("isinstance", (L.t(v), mk("lib", data="|".join(names)))))
