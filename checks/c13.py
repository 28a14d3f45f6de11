from .base import *
from .tools import *
from . import optim
from .c12 import Region
from sa.shapes import Shapes

ID, TITLE = "C13", "Fitted loadings vanish off the graph; every fitted number is reported once"
RULE = ("Region-split interval evaluation of the reported loadings (non-edges must be exactly 0) and symbolic-size arithmetic over the solution "
        "vector: the parts of the vector that end up in the reported loadings and in the reported variances are intervals with polynomial bounds "
        "in the model's sizes, and must partition [0, length of the start vector); the objective must read the same intervals, and put "
        "consecutive entries in the same order (row by row or column by column) into its loadings as the report does.")
ASSUMES = ["numpy slicing semantics; scipy.optimize.minimize returns a vector of the start vector's length"]
WITNESSES = [
    ("medil/models.py", "self.parameters.error_variances = result.x[num_weights:]", "self.parameters.error_variances = result.x[num_weights - 1 : -1]"),
    ("medil/models.py", "self.parameters.error_variances = result.x[num_weights:]", "self.parameters.error_variances = result.x[:num_err_vars]"),
    ("medil/models.py", "self.parameters.biadj_weights[mask] = result.x[:num_weights]", "self.parameters.biadj_weights[~mask] = result.x[:num_weights]"),
    ("medil/models.py", "self.parameters.biadj_weights = np.zeros_like(self.biadj, float)", "self.parameters.biadj_weights = np.ones_like(self.biadj, float)"),
    ("medil/models.py", "self.parameters.biadj_weights[mask] = result.x[:num_weights]", "self.parameters.biadj_weights.T[mask.T] = result.x[:num_weights]"),
    ("medil/models.py", "self.D_hat = np.diag(result.x[num_latent * num_meas :])", "self.D_hat = np.diag(result.x[-2 * num_meas : -num_meas])"),
]
KNOWN = {"store", "getitem", "optx", "full", "reshape", "astype", "T", "mul", "add", "sub", "neg", "abs", "pow", "slice", "const", "tuple", "where", "nonzero",
         "where1", "not", "invert", "exp", "ravel", "pinv", "inv", "matmul", "flatnonzero", "argwhere", "param", "eq", "ne", "lt"}


def off_graph(cx, f):
    key = f.key
    if f.W is None or f.B is None:
        cx.und("off-graph-zero", key, None, "reported loadings not found")
        return
    rg = Region(cx.eng, f.B, False)
    r = rg(upright(f.W))
    loc = (f.W.locs or [None])[0]
    if r == ((0, 0),):
        cx.ok("off-graph-zero", key, loc, "non-edges stay 0")
        return
    B = f.B
    vals = set(T.subterms(upright(f.W), stop=lambda y: y.op in ("dim", "size", "sum", "count_nonzero", "optx") or y is B))
    strange = [x for x in vals if x.op not in KNOWN and x is not B and x.op not in ("dim", "size", "sum", "count_nonzero")]
    masks = [x for x in vals if x.op == "store" and rg.mask(x.args[1]) is None or x.op == "where" and len(x.args) == 3 and rg.mask(x.args[0]) is None]
    if strange or masks:
        cx.und("off-graph-zero", key, loc, "cannot decide what non-edges hold: " + T.show((strange or masks)[0], 3))
    else:
        cx.bad("off-graph-zero", key, loc, "a non-edge can hold " + " or ".join(f"[{a:g},{b:g}]" for a, b in r))


def upright(t):
    """T(store(T(x), T(m), v)) sets the same entries of x (in another order)"""
    sub = {}
    for s in T.subterms(t):
        if s.op == "T" and s.args[0].op == "store":
            b, i, v = s.args[0].args
            if i.op == "T" or i.op == "astype" and i.args[0].op == "T":
                sub[s] = mk("store", (T.transpose(b), T.transpose(i), v))
    return T.subst(t, sub) if sub else t


def order(t, X):
    """which entries of the loadings take consecutive entries of the solution: mask (rows first) or its transpose, or the shape filled"""
    out = set()

    def direct(v):
        while v.op in ("getitem", "astype", "ravel", "copy", "asarray") and v is not X:
            v = v.args[0]
        return v is X
    for s in T.subterms(t):
        if s.op == "store" and direct(s.args[2]):
            i, flip = s.args[1], False
            while i.op in ("astype", "nonzero", "where1", "T"):
                flip ^= i.op == "T"
                i = i.args[0]
            out.add(("mask", i, flip))
        elif s.op == "reshape" and direct(s.args[0]):
            out.add(("shape", s.args[1], T.cval(dict(s.kw)["order"]) if "order" in dict(s.kw) and T.is_const(dict(s.kw)["order"]) else "C"))
    return out


def same_order(cx, f):
    a, b = order(f.W, f.X), order(f.ev.d["objective"], f.X)
    b = {x for x in b if x[0] == "mask" or len(x[1].args) == 2}   # not the reshaping of a vector
    if len(a) != 1 or len(b) != 1:
        return
    (x,), (y,) = a, b
    if x == y:
        cx.ok("same-order-as-objective", f.key, (f.W.locs or [None])[0], "consecutive entries of the solution go to the same places in the report and the objective")
    elif x[0] == y[0] and x[1] is y[1] and x[2] != y[2]:
        cx.bad("same-order-as-objective", f.key, (f.W.locs or [None])[0], "the reported loadings take the solution's entries column by column, the objective row by row (or the reverse)")


def partition(cx, f):
    key = f.key
    if f.ev is None or f.W is None or f.V is None:
        cx.und("solution-partition", key, None, "no single optimisation or no reported parameters")
        return
    S = Shapes(cx.eng, masks=[f.B] if f.B is not None else ())
    n = S.shape(f.X)
    if n is None:
        cx.und("solution-partition", key, f.ev.loc, "length of the solution vector unknown")
        return
    n = n[0]
    ps = [optim.parts(t, f.X, S, n) for t in (f.W, f.V, f.ev.d["objective"])]
    names = ("loadings", "error variances", "objective")
    iv = []
    for nm, p, t in zip(names, ps, (f.W, f.V, f.ev.d["objective"])):
        if p is None:
            cx.und("solution-partition", key, f.ev.loc, f"reads of the solution by the {nm} not understood")
            return
        iv.append({(a.key(), b.key()): (a, b) for a, b, _ in p})
    for nm, p, t in zip(names[:2], iv, (f.W, f.V)):
        if len(p) != 1:
            if not p:
                cx.bad("solution-partition", f"{key}: {nm}", (t.locs or [None])[0], f"the reported {nm} are not read from the solution vector")
            else:
                cx.und("solution-partition", f"{key}: {nm}", None, "several parts")
            return
    w, v = [list(p.values())[0] for p in iv[:2]]
    first, second = (w, v) if not w[0] or (v[0] - w[0]).sign != "-" else (v, w)
    loc = (f.V.locs or [None])[0]
    ok = not first[0] and first[1] == second[0] and second[1] == n
    txt = f"loadings {optim.show(w)}, variances {optim.show(v)} of {n!r}"
    cx.put(ok, "solution-partition", key, loc, txt + ("" if ok else ": overlap or omission"))
    obj = iv[2]
    same = set(obj) == set(iv[0]) | set(iv[1])
    cx.put(same, "same-layout-as-objective", key, f.ev.loc, "objective reads " + ", ".join(optim.show(p) for p in obj.values()) + "; reported " + txt)


def check(cx):
    for f in optim.fits(cx):
        if f.B is not None or f.key.startswith("Gaussian"):
            off_graph(cx, f)
        partition(cx, f)
        if f.ev is not None and f.W is not None and f.X is not None:
            same_order(cx, f)
