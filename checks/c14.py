from .base import *
from .tools import *
from . import optim
from sa import normal as N
from sa.normal import norm, items, num
from sa.shapes import Shapes

ID, TITLE = "C14", "Reported parameters are the ones the fitting objective evaluated"
RULE = ("The objective closure's value-flow term is brought to an algebraic normal form with the reported loadings and variances abstracted (parts of the "
        "solution vector are compared by their symbolic interval). Obligations: nothing of the solution vector is left outside them; every linear "
        "combination containing a product of the loadings is sample covariance minus (W'W + diag D), or W'W + diag D itself, with the covariance "
        "of the fitted data; the validation loss has the same normal form at the reported parameters.")
ASSUMES = ["matrix identities of transposition, inverse, trace and log-determinant"]
WITNESSES = [
    ("medil/models.py", "(cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2", "(cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars**2)) ** 2"),
    ("medil/models.py", "(cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2", "(cov - biadj_weights.T @ biadj_weights + np.diagflat(err_vars)) ** 2"),
    ("medil/models.py", "Sigma = np.dot(W.T, W) + D", "Sigma = np.dot(W, W.T) + D"),
    ("medil/models.py", "loss += lambda_reg * self.rho(W)\n        loss += mu_reg * self.sigma(W)\n        return loss", "loss += lambda_reg * self.rho(W)\n        return loss"),
    ("medil/models.py", "self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)\n        self.D_hat = np.diag(result.x[num_latent * num_meas :])",
     "self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas, order=\"F\")\n        self.D_hat = np.diag(result.x[num_latent * num_meas :])"),
    ("medil/models.py", "W = self.W_hat_lse\n        D = self.D_hat_lse\n        Sigma_hat = np.cov(data, rowvar=False)", "W = self.W_hat_lse\n        D = self.D_hat_lse\n        Sigma_hat = np.corrcoef(data, rowvar=False)"),
]
WS, DS, DATA = mk("WEIGHTS"), mk("VARS"), mk("DATA")
FLOATS = {"float", "float64", "float_", "double"}


class Canon:
    """abstracts parts of the solution vector, sizes and zero arrays"""

    def __init__(self, cx, f, S, n, subs):
        self.cx, self.f, self.S, self.n, self.subs = cx, f, S, n, subs
        self.segs = {}

    def seg(self, x):
        p = optim.parts(x, self.f.X, self.S, self.n) if x.op in ("getitem", "optx", "ravel", "astype") else None
        if p and len(p) == 1 and p[0][2] is x:
            return p[0][:2]
        return None

    def __call__(self, x):
        if x in self.subs:
            return self.subs[x]
        if x is self.f.X or x.op in ("getitem", "ravel", "astype"):
            s = self.seg(x) if contains(x, self.f.X) else None
            if s:
                return mk("SEG", data=(s[0].key(), s[1].key()))
        if x.op == "reshape" and not x.kw:
            sh = self.S.shape(x)
            if sh is not None:
                return mk("RESHAPE", (self.go(x.args[0]),), data=tuple(p.key() for p in sh))
        if x.op == "full" and (x.kwd("dtype") is None or x.kwd("dtype").op == "const"):
            sh = self.S.shape(x)
            if sh is not None:
                dt = x.kwd("dtype")
                dt = T.cval(dt) if dt is not None else ("float" if num(x.args[1]) is not None else None)
                dt = "float" if dt in FLOATS else dt
                return mk("FULL", (x.args[1],) if num(x.args[1]) is None else (const(float(T.cval(x.args[1]))),), data=(tuple(p.key() for p in sh), dt))
        if x.op == "store":
            return mk("store", (self.go(x.args[0]), self.go(mask(x.args[1])), self.go(x.args[2])))
        return None

    def go(self, x):
        return norm(x, self)


def mask(ix):
    """a boolean mask and its nonzero positions select the same entries in the same order"""
    if ix.op in ("nonzero", "where1") and len(ix.args) == 1:
        ix = ix.args[0]
    if ix.op == "tuple" and ix.args and all(a.op == "getitem" and a.args[0] is ix.args[0].args[0] and a.args[0].op in ("nonzero", "where1")
                                           and is_c(a.args[1], i) for i, a in enumerate(ix.args)):
        ix = ix.args[0].args[0].args[0]
    return unwrap(ix)


def objective(cx, f, O, S, n, rule_loc):
    """(normal form with W, D abstracted)"""
    base = Canon(cx, f, S, n, {})
    w, v = base.go(f.W), base.go(f.V)

    class Abs(Canon):
        def __call__(self, x):
            r = super().__call__(x)
            if r is not None:
                return self.fold(r)
            return None

        @staticmethod
        def fold(r):
            return WS if r is w else DS if r is v else r
    ab = Abs(cx, f, S, n, {})
    # normalise first (segments canonical), then fold the reported terms
    t = base.go(O)
    return map_term(t, lambda y: WS if y is w else DS if y is v else None), w, v


def combos(t):
    """linear combinations that mention a product of the loadings"""
    wtw = mk("matmul", (mk("T", (WS,)), WS))
    wwt = mk("matmul", (WS, mk("T", (WS,))))
    out, seen = [], set()
    for x in subterms(t):
        its = items(x) if x.op in ("SUM", "SCALED") else None
        if its and (wtw in its or wwt in its):
            out.append((x, its))
            seen |= {wtw, wwt}
    for x in subterms(t):
        if x in (wtw, wwt) and x not in seen:
            out.append((x, {x: 1}))
    return out, wtw, wwt


def check(cx):
    for f in optim.fits(cx, validation=True):
        one(cx, f)


def one(cx, f):
    key = f.key
    if f.ev is None or f.W is None or f.V is None:
        cx.und("objective-parameters", key, None, "no single optimisation or no reported parameters")
        return
    S = Shapes(cx.eng, masks=[f.B] if f.B is not None else ())
    n = S.shape(f.X)
    if n is None:
        cx.und("objective-parameters", key, f.ev.loc, "length of the solution vector unknown")
        return
    n = n[0]
    O = f.ev.d["objective"]
    loc = f.ev.loc
    if O is None:
        cx.und("objective-parameters", key, loc, "objective not resolved")
        return
    # the dataset is abstracted
    sub = {f.data: DATA}
    O, W, V = (T.subst(x, sub) for x in (O, f.W, f.V))
    X = T.subst(f.X, sub)
    S = Shapes(cx.eng, {DATA: S.shape(f.data)}, masks=[T.subst(f.B, sub)] if f.B is not None else ())
    g = optim.Fit(key, f.r, f.model, W, V, f.diag, DATA, f.ev, f.B)
    g.X = X
    t, w, v = objective(cx, g, O, S, n, loc)
    left = [x for x in subterms(t) if x.op == "SEG" or x is X]
    if not left:
        cx.ok("objective-parameters", key, loc, "the objective reads the solution only as the reported loadings and variances")
    else:
        judge_left(cx, key, loc, t, left, w, v)
    covariance(cx, f, key, loc, t)
    val = f.other.get("validation")
    if val is not None:
        validation(cx, f, key, val, t, w, v, g, S, n)


ELEM = {"abs", "exp", "log", "sqrt", "PROD", "SCALED", "diag", "RESHAPE", "T", "store", "SUM", "neg", "maximum", "minimum", "pow", "square", "reshape", "softplus", "clip"}


def judge_left(cx, key, loc, t, left, w, v):
    """a remaining direct read of the solution: used as model parameter (bad), or merely summarised"""
    L = set(left)
    wtw = []

    def dirty(x, memo={}):
        return any(y in L for y in subterms(x))
    for x in subterms(t):
        if x.op == "matmul" and any(dirty(a) for a in x.args) and all(dirty(a) or contains(a, WS) or contains(a, DS) for a in x.args):
            wtw.append(x)
        if x.op == "diag" and dirty(x.args[0]):
            wtw.append(x)
    for x in wtw:
        ops_ = {y.op for y in T.subterms(x, stop=lambda y: y in L)}
        strange = ops_ - ELEM - {"SEG", "matmul", "diag", "const", "FULL", "WEIGHTS", "VARS", "param", "dim", "astype", "const"}
        kw = [y for y in subterms(x) if y.op == "reshape" and y.kw]
        if strange:
            cx.und("objective-parameters", key, loc, "solution decoded in a way not understood: " + T.show(x, 4))
        else:
            cx.bad("objective-parameters", key, loc, "the objective decodes the solution differently from the reported parameters: " + T.show(x, 5))
        return
    raw = {y.op for y in subterms(w)} <= {"SEG", "RESHAPE", "const"}
    if raw:
        cx.ok("objective-parameters", key, loc, "remaining reads are functions of the reported loadings")
    else:
        cx.und("objective-parameters", key, loc, "direct read of the solution: " + T.show(left[0], 3))


def covariance(cx, f, key, loc, t):
    cs, wtw, wwt = combos(t)
    d = DS if f.diag else mk("diag", (DS,))
    s = mk("cov", (DATA,))
    if not cs:
        cx.und("model-covariance", key, loc, "no product of the loadings found in the objective")
        return
    for x, its in cs:
        its = dict(its)
        a = its.pop(wtw, 0)
        txt = " + ".join(f"{c} {T.show(k, 3)}" for k, c in [(wtw, a)] * bool(a) + list(its.items()))
        strange = [k for k in its if k not in (wwt, d, s) and not simple(k)]
        if its == {d: a} and a:
            cx.ok("model-covariance", key, loc, "W'W + diag(D)")
            cx.put(likelihood(t, x, s), "compared-with-sample-covariance", key, loc, "trace of the sample covariance times the inverse")
        elif a and its == {d: a, s: -a}:
            cx.ok("model-covariance", key, loc, "cov - W'W - diag(D)")
            cx.ok("compared-with-sample-covariance", key, loc, "sample covariance of the fitted data")
        elif strange:
            cx.und("model-covariance", key, loc, "combination not understood: " + txt)
        else:
            cx.bad("model-covariance", key, loc, "compared quantity is " + txt)


def simple(k):
    ok = {"cov", "corr", "DATA", "WEIGHTS", "VARS", "diag", "T", "matmul", "const", "PROD", "eye", "abs", "dim", "exp", "pow", "diagonal", "param", "SCALED", "inv",
          "maximum", "minimum", "clip", "outer", "sqrt", "log", "square"}
    return all(x.op in ok for x in subterms(k))


def likelihood(t, sigma, s):
    tr = [x for x in subterms(t) if x.op == "trace" and x.args[0].op == "matmul"]
    inv = mk("inv", (sigma,))
    for x in tr:
        if inv in x.args[0].args:
            o = [a for a in x.args[0].args if a is not inv]
            if o == [s]:
                return True
            if o and o[0].op in ("corr", "matmul", "cov"):
                return False
    return None


def leaves(t):
    return [x for c, x in phi_leaves(t) if not (x.op == "const" or x.op == "param")]


def validation(cx, f, key, val, t, w, v, g, S, n):
    ps = {x.data: x for x in subterms(val) if x.op == "param"}
    held = [x for x in subterms(val) if x.op == "param" and x.data and "held" in str(x.data)]
    ev = T.subst(val, {f.data: DATA})
    rev = Canon(cx, g, S, n, {})
    e = rev.go(ev)
    e = map_term(e, lambda y: WS if y is w else DS if y is v else None)
    names = {"held": DATA}

    def ren(y):
        if y.op == "param":
            nm = str(y.data if isinstance(y.data, str) else y.data[0] if isinstance(y.data, tuple) else y.data)
            if "held" in nm:
                return DATA
            if nm.endswith("lam2"):
                return mk("LAM")
            if nm.endswith("mu2"):
                return mk("MU")
            if nm.endswith("lam"):
                return mk("LAM")
            if nm.endswith("mu"):
                return mk("MU")
        return None

    def renorm(x):
        x = norm(map_term(x, ren))
        if any(y.op == "const" and T.cval(y) == float("inf") for _, y in phi_leaves(x)):
            # the other exit is taken when the sign of the determinant is not positive
            x = T.phi(x.args[0], *(norm(map_term(z, lambda y: const(1) if y.op == "slogdet_sign" else None)) for z in x.args[1:])) if x.op == "phi" else x
        return x
    a, b = renorm(t), renorm(e)
    loc = (val.locs or [None])[0]
    rule = "validation-is-objective"
    if a is b:
        cx.ok(rule, key, loc, "same normal form")
        return
    if any(contains(val, x) for x in f.other.get("later", ())):
        cx.bad(rule, key, loc, "evaluates what another method's fit estimated")
        return
    la, lb = leaves(a), leaves(b)
    if len(la) == 1 and len(lb) == 1:
        ia, ib = items(la[0]), items(lb[0])
        if ia == ib:
            cx.ok(rule, key, loc, "same normal form")
            return
        if swapped(la[0]) is lb[0]:
            cx.bad(rule, key, loc, "penalty strengths exchanged")
            return
        da = {k for k in set(ia) | set(ib) if ia.get(k, 0) != ib.get(k, 0)}
        # one side is missing items, or has the same items with other coefficients
        ma, mb = {k for k in da if k in ia}, {k for k in da if k in ib}
        if not ma or not mb or ma == mb:
            cx.bad(rule, key, loc, "differs from the objective in " + ", ".join(T.show(k, 3) for k in sorted(da, key=lambda k: k.uid)))
            return
        if all(atom(k) for k in da):
            cx.bad(rule, key, loc, "differs from the objective: " + ", ".join(T.show(k, 4) for k in sorted(mb, key=lambda k: k.uid)))
            return
        if wrong_data(a) == {"cov"} and wrong_data(b) == {"corr"} or leftover(b):
            cx.bad(rule, key, loc, "evaluates other parameters or another statistic: " + ", ".join(T.show(k, 3) for k in sorted(mb, key=lambda k: k.uid)))
            return
        cx.und(rule, key, loc, "normal forms differ: " + ", ".join(T.show(k, 4) for k in sorted(da, key=lambda k: k.uid))[:300])
        return
    cx.und(rule, key, loc, "alternatives differ")


def atom(k):
    """one of the functionally independent quantities the losses are made of"""
    fs = [k] if k.op != "PROD" else list(k.args)
    fs = [x for x in fs if x.op not in ("LAM", "MU", "slogdet_sign")]
    if len(fs) == 2 and fs[0] is fs[1]:
        fs = fs[:1]
    if not fs:
        return True
    if len(fs) != 1:
        return False
    x = fs[0]
    ok = {"SUM", "SCALED", "cov", "corr", "DATA", "T", "matmul", "WEIGHTS", "VARS", "diag", "inv", "const", "ravel"}
    if x.op not in ("slogdet_log", "trace", "sum", "norm"):
        return False
    body = x.args[0]
    if x.op == "sum":
        if body.op != "PROD" or len(body.args) != 2 or body.args[0] is not body.args[1]:
            return False
        body = body.args[0]
    if x.op == "trace" and not (body.op == "matmul" and sorted(y.op for y in body.args) in (["corr", "inv"], ["cov", "inv"])):
        return False
    return all(y.op in ok and all(v.op == "const" for _, v in y.kw) for y in subterms(body)) and all(y.op == "const" for y in x.args[1:])


def wrong_data(t):
    return {x.op for x in subterms(t) if x.op in ("cov", "corr") and x.args[0] is DATA}


def leftover(t):
    """solution parts that are not the reported ones appear in the validation loss"""
    return any(x.op == "SEG" for x in subterms(t))


def swapped(t):
    return norm(map_term(t, lambda y: mk("MU") if y.op == "LAM" else mk("LAM") if y.op == "MU" else None))
