"""Fitted Gaussian estimators: what the optimiser's solution vector is decoded to (shared by C13 and C14)."""
from .base import *
from .tools import *
from sa.shapes import Shapes, Poly

G, D = "medil.models.GaussianMCM", "medil.models.DevMedil"


class Fit:
    def __init__(self, key, r, model, W, V, diag, data, ev, B=None, other=None):
        self.key, self.r, self.model, self.W, self.V, self.diag, self.data, self.ev, self.B = key, r, model, W, V, diag, data, ev, B
        self.other = other or {}
        self.X = ev.d["x"] if ev else None


def fits(cx, validation=False):
    """every fitting method, analysed with symbolic data: a list of Fit (W, V: reported loadings / variances; diag: V is the diagonal matrix)"""
    out = []
    if cx.has(G):
        for given in ("biadj", "udg", "nothing"):
            box = {}

            def fit(_):
                kw = {} if given == "nothing" else {given: cx.p(given, "ndarray", 2, nonempty=True)}
                d = cx.p("dataset", "ndarray", 2, nonempty=True)
                box["d"] = cx.eng.term(d)
                m = box["m"] = cx.call(G, rng=cx.p("rng", "generator"), **kw)
                return cx.meth(m, "fit", d)
            key = f"GaussianMCM.fit ({given} given)"
            r = cx.run(key, fit)
            if r is None or r.st is None:
                cx.und("fit-analysed", key, None, "no result")
                continue
            evs = [e for e in r.ev("minimize")]
            m = box["m"]
            out.append(Fit(key, r, m, r.fterm(m, "parameters", "biadj_weights"), r.fterm(m, "parameters", "error_variances"), False, box["d"],
                           evs[0] if len(evs) == 1 else None, r.fterm(m, "biadj")))
    if cx.has(D):
        for order in (("mle",), ("lse",), ("mle", "lse"), ("lse", "mle")):
            meth = order[0]
            box = {}

            def fit(_):
                d = cx.p("dataset", "ndarray", 2, nonempty=True)
                box["d"] = cx.eng.term(d)
                m = box["m"] = cx.call(D, rng=cx.p("rng", "generator"))
                r = cx.meth(m, "fit", d, method=ConstV(meth), lambda_reg=cx.p("lam", "float", lo=0), mu_reg=cx.p("mu", "float", lo=0))
                for later in order[1:]:
                    cx.meth(m, "fit", cx.p("later_dataset", "ndarray", 2, nonempty=True), method=ConstV(later), lambda_reg=cx.p("lam3", "float", lo=0), mu_reg=cx.p("mu3", "float", lo=0))
                if validation:
                    box["v"] = cx.meth(m, "validation_" + meth, cx.p("lam2", "float", lo=0), cx.p("mu2", "float", lo=0), cx.p("held", "ndarray", 2, nonempty=True))
                return r
            key = f"DevMedil.fit ({', then '.join(order)})"
            r = cx.run(key, fit)
            if r is None or r.st is None:
                cx.und("fit-analysed", key, None, "no result")
                continue
            evs = [e for e in r.ev("minimize")]
            m = box["m"]
            f = Fit(key, r, m, r.fterm(m, "W_hat_" + meth) or r.fterm(m, "W_hat"), r.fterm(m, "D_hat_" + meth) or r.fterm(m, "D_hat"), True, box["d"], evs[0] if len(evs) == len(order) else None)
            f.other["later"] = [e.d["x"] for e in evs[1:]] if len(evs) == len(order) else []
            if validation and box.get("v") is not None:
                f.other["validation"] = r.term(box["v"])
            out.append(f)
    return out


def parts(t, X, S, whole):
    """segments of the solution vector X that t reads: [(lo, hi, term)], or None when some read is not understood"""
    out, seen, ok = [], set(), True

    def seg(x):
        """interval of x inside X when x is a contiguous part of X"""
        if x is X:
            return Poly(), whole
        if x.op in ("astype", "ravel", "copy", "asarray", "array") and x.args:
            return seg(x.args[0])
        if x.op == "getitem" and x.args[1].op == "slice":
            b = seg(x.args[0])
            if b is None:
                return None
            w = S.bounds(b[1] - b[0], x.args[1])
            return (b[0] + w[0], b[0] + w[1]) if w else None
        if x.op == "getitem" and x.args[0].op == "splitat":
            return None
        return None

    def go(x, top):
        nonlocal ok
        if x in seen:
            return
        seen.add(x)
        s = seg(x)
        if s is not None:
            out.append((s[0], s[1], x))
            return
        if x.op == "getitem" and has(x.args[0]) and seg(x.args[0]) is not None:
            ok = False
            return
        if x.op in ("dim", "size", "shape", "len"):
            return
        for y in T.children(x):
            go(y, False)

    def has(x):
        return contains(x, X)
    go(t, True)
    return out if ok else None


def show(p):
    return f"[{p[0]!r} : {p[1]!r}]"
