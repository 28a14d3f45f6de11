from .base import *
from .tools import *
from sa.ranges import Ranges, within, ANY, INF, union

ID, TITLE = "C12", "Generated Gaussian models have valid, edge-faithful parameters"
RULE = ("Union-of-intervals evaluation of the parameters stored in a generated model, split by region: the loading of an edge and the loading of a non-edge are "
        "evaluated separately through masked stores, where and products with the graph. Obligations: edge loadings in [-2,-0.5] or [0.5,2], non-edge "
        "loadings exactly 0, error variances in [0.5,2], error means in [-2,2]; non-integers are not stored in arrays of integer or boolean type.")
ASSUMES = ["Generator.random lies in [0,1), uniform(a,b) in [a,b]"]
WITNESSES = [
    ("medil/sample.py", "np.zeros_like(biadj, float)", "np.zeros_like(biadj, None if biadj.dtype != bool else float)"),
    ("medil/sample.py", "weights = (rng.random(num_edges) * 1.5) + 0.5", "weights = rng.random(num_edges) * 2"),
    ("medil/sample.py", "params.error_variances = (rng.random(num_meas) * 1.5) + 0.5", "params.error_variances = rng.standard_normal(num_meas)"),
    ("medil/sample.py", "params.biadj_weights[mask] = weights", "params.biadj_weights[~mask] = weights"),
    ("medil/sample.py", "params.biadj_weights = np.zeros_like(biadj, float)", "params.biadj_weights = np.ones_like(biadj, float)"),
    ("medil/sample.py", "params.error_means = rng.random(num_meas) * 2", "params.error_means = rng.random(num_meas) * 3"),
]
UNBOUNDED = {"normal", "standard_normal", "multivariate_normal", "exponential", "gamma", "poisson", "laplace", "standard_t", "standard_cauchy", "lognormal",
             "standard_exponential", "chisquare", "geometric"}
EDGE = ((-2, -0.5), (0.5, 2))


class Region(Ranges):
    """entries restricted to the edges (on) or non-edges of graph B"""

    def __init__(self, eng, B, on):
        super().__init__(eng)
        self.B, self.on = B, on
        self.facts[B] = ((1, 1),) if on else ((0, 0),)

    def mask(self, ix):
        """True: ix selects the edges, False: the non-edges, None: unknown"""
        if ix.op in ("nonzero", "where1", "argwhere", "flatnonzero"):
            return self.mask(ix.args[0])
        if ix.op == "tuple" and ix.args and all(a.op == "getitem" and a.args[0] is ix.args[0].args[0] and a.args[0].op in ("nonzero", "where1")
                                               and is_c(a.args[1], i) for i, a in enumerate(ix.args)):
            return self.mask(ix.args[0].args[0])
        if ix.op in ("invert", "not"):
            m = self.mask(ix.args[0])
            return None if m is None else not m
        if ix.op == "eq" and any(is_c(a, 0) for a in ix.args):
            m = self.mask([a for a in ix.args if not is_c(a, 0)][0])
            return None if m is None else not m
        if ix.op == "eq" and any(is_c(a, 1) for a in ix.args):
            return self.mask([a for a in ix.args if not is_c(a, 1)][0])
        return True if unwrap(ix) is unwrap(self.B) else None

    def ev(self, t):
        if unwrap(t) is unwrap(self.B):
            return ((1, 1),) if self.on else ((0, 0),)
        if t.op == "store":
            m = self.mask(t.args[1])
            if m is not None:
                return self(t.args[2]) if m == self.on else self(t.args[0])
            return union(self(t.args[0]), self(t.args[2]))
        if t.op == "where" and len(t.args) == 3:
            m = self.mask(t.args[0])
            if m is not None:
                return self(t.args[1]) if m == self.on else self(t.args[2])
        if t.op in ("invert", "not") and unwrap(t.args[0]) is unwrap(self.B):
            return ((0, 0),) if self.on else ((1, 1),)
        return super().ev(t)


def values(t, B=None):
    """subterms that contribute values (not sizes, indices or the graph)"""
    return T.subterms(t, stop=lambda y: y.op in ("draw", "dim", "size") or y is B)


def correlated(t, B=None):
    """two operands of one operation share a random draw"""
    for x in values(t, B):
        if x.op in ("add", "sub", "mul", "div") and len(x.args) == 2:
            d = [{y for y in values(a, B) if y.op == "draw"} for a in x.args]
            if d[0] & d[1]:
                return True
    return False


def judge(cx, rg, t, allowed, rule, key):
    loc = (t.locs or [None])[0]
    r = rg(t)
    txt = " or ".join(f"[{a:g},{b:g}]" for a, b in r)
    if r and within(r, allowed):
        cx.ok(rule, key, loc, txt)
        return
    B = getattr(rg, "B", None)
    opq = [x for x in values(t, B) if x.op in ("opaque", "rec") or x.op.startswith("call:")]
    unb = [x for x in values(t, B) if x.op == "draw" and x.data[0] in UNBOUNDED]
    want = " or ".join(f"[{a:g},{b:g}]" for a, b in allowed)
    if all(abs(a) < INF and abs(b) < INF for a, b in r) and not correlated(t, B) and not opq:
        cx.bad(rule, key, loc, f"can be {txt}, outside {want}")
    elif unb and not opq and not any(x.op in ("clip", "maximum", "minimum", "where", "phi", "mu") for x in values(t, B)):
        cx.bad(rule, key, loc, f"unbounded draw {unb[0].data[0]}, outside {want}")
    elif len(r) == 1 and r[0][0] > -INF and r[0][0] < allowed[0][0] and not correlated(t, B) and not opq:
        cx.bad(rule, key, loc, f"can be {txt}, outside {want}")
    else:
        cx.und(rule, key, loc, f"range {txt} not decided")


def truncated(t, B):
    """a store of non-integers into an array that takes its element type from the graph, or is an integer or boolean array"""
    from sa.encoding import Encoding
    dark = None
    for x in values(t, B):
        if x.op != "store":
            continue
        b = x.args[0]
        while b.op == "store":
            b = b.args[0]
        dt = b.kwd("dtype") if b.op in ("full", "empty") else b.args[1] if b.op == "astype" else None
        if dt is None or not Encoding.float(Encoding.__new__(Encoding), x.args[2]):
            continue
        for g in ("bool", "int"):                                  # element types a graph comes in
            typ = element(dt, B, g)
            if typ in ("graph", "int", "bool", "int64", "int32", "int8", "uint8"):
                return x, "the graph" if typ == "graph" else typ
            if typ == "?":
                dark = x
    return (dark, None) if dark is not None else None


NAMES = {"bool": {"bool", "bool_", "generic"}, "int": {"int", "int64", "int_", "integer", "signedinteger", "number", "generic"}}


def element(dt, B, g):
    """element type `dt` stands for when graph B has element type g ("?" when not understood)"""
    if dt.op == "phi":
        c = typetest(dt.args[0], B, g)
        return "?" if c is None else element(dt.args[1 if c else 2], B, g)
    if dt.op == "dtype" and unwrap(dt.args[0]) is unwrap(B):
        return "graph"
    if dt.op == "const":
        return T.cval(dt)
    return dt.data if dt.op == "lib" else None


def typetest(c, B, g):
    """value of a test of B's element type"""
    if c.op == "not":
        r = typetest(c.args[0], B, g)
        return None if r is None else not r
    if c.op in ("band", "bor", "and", "or"):
        rs = [typetest(a, B, g) for a in c.args]
        w = c.op in ("bor", "or")
        return w if w in rs else None if None in rs else not w

    def mine(a):
        return a.op == "dtype" and unwrap(a.args[0]) is unwrap(B)

    def kind(a):
        return a.op == "attr" and a.data == "kind" and mine(a.args[0])

    def name(a):
        return str(a.data).rsplit(".", 1)[-1] if a.op == "lib" else T.cval(a) if a.op == "const" else None
    if c.op in ("eq", "ne", "is", "isnot") or c.op == "call:numpy.issubdtype":
        a, b = c.args
        if mine(b) or kind(b):
            a, b = b, a
        if name(b) is None:
            return None
        if mine(a):
            return (name(b) in (NAMES[g] if c.op.startswith("call") else NAMES[g] - {"generic", "number", "integer"})) != (c.op in ("ne", "isnot"))
        if kind(a):
            return (name(b) == {"bool": "b", "int": "i"}[g]) != (c.op in ("ne", "isnot"))
    if c.op in ("in", "notin") and kind(c.args[0]) and isinstance(name(c.args[1]), str):
        return ({"bool": "b", "int": "i"}[g] in name(c.args[1])) != (c.op == "notin")
    return None


def check(cx):
    S = "medil.sample.mcm"
    if not cx.has(S):
        return
    for given in (True, False):
        box = {}

        def gen(_):
            if given:
                b = cx.p("biadj", "ndarray", 2, nonempty=True)
                return cx.call(S, rng=cx.p("rng", "generator"), biadj=b)
            return cx.call(S, rng=cx.p("rng", "generator"), num_meas=cx.p("num_meas", "int", lo=2))
        r = cx.run(f"mcm({'given' if given else 'random'} graph)", gen)
        key = f"mcm({'given' if given else 'random'} graph)"
        if r is None or r.result is None:
            cx.und("loading-range", key, None, "no result")
            continue
        B = r.fterm(r.result, "biadj")
        ts = {n: r.fterm(r.result, "parameters", n) for n in ("biadj_weights", "error_variances", "error_means")}
        if B is None or None in ts.values():
            cx.und("loading-range", key, None, "parameters not found")
            continue
        for n, t in ts.items():
            z = truncated(t, B)
            if z and z[1] is None:
                cx.und("stored-untruncated", f"{key}: {n}", (z[0].locs or [None])[0], "the element type of the array the values are stored in is not understood")
            elif z:
                cx.bad("stored-untruncated", f"{key}: {n}", (z[0].locs or [None])[0], f"non-integer values are stored in an array with the element type of {z[1]}")
            else:
                cx.ok("stored-untruncated", f"{key}: {n}")
        judge(cx, Region(cx.eng, B, True), ts["biadj_weights"], EDGE, "edge-loading-range", key)
        off = Region(cx.eng, B, False)
        judge(cx, off, ts["biadj_weights"], ((0, 0),), "non-edge-loading-zero", key)
        R = Ranges(cx.eng)
        judge(cx, R, ts["error_variances"], ((0.5, 2),), "error-variance-range", key)
        judge(cx, R, ts["error_means"], ((-2, 2),), "error-mean-range", key)
