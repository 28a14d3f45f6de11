"""Union-of-intervals evaluation: which numbers can the entries of a term be?

A value is a tuple of closed intervals (lo, hi), disjoint and increasing; () is impossible, None unknown.
Arrays are described by the range of their entries.
"""
import math

from . import terms as T
from .terms import cval, isnum

INF = float("inf")
ANY = ((-INF, INF),)
BOOL = ((0, 0), (1, 1))
MAXPIECES = 6


def norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if lo > hi or lo != lo or hi != hi:
            return ANY if (lo != lo or hi != hi) else norm([x for x in ivs if x[0] <= x[1]])
        if out and lo <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    while len(out) > MAXPIECES:
        g = min(range(len(out) - 1), key=lambda i: out[i + 1][0] - out[i][1])
        out[g:g + 2] = [(out[g][0], out[g + 1][1])]
    return tuple(out)


def hull(r):
    return (r[0][0], r[-1][1])


def within(r, allowed):
    """every value of r lies in one of the allowed intervals"""
    return all(any(a <= lo and hi <= b for a, b in allowed) for lo, hi in r)


def mulp(a, b):
    def m(x, y):
        return 0.0 if x == 0 or y == 0 else x * y
    ps = [m(x, y) for x in a for y in b]
    return (min(ps), max(ps))


def pairwise(f, a, b):
    return norm([f(x, y) for x in a for y in b])


def union(a, b):
    return norm(list(a) + list(b))


class Ranges:
    def __init__(self, eng, facts=None):
        self.e, self.facts = eng, dict(facts or {})
        self.memo = {}

    def __call__(self, t):
        if t in self.facts:
            return self.facts[t]
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = ANY
        try:
            r = self.ev(t)
        except (OverflowError, ValueError, ZeroDivisionError):
            r = ANY
        self.memo[t] = r = ANY if r is None else r
        return r

    # monotone functions on the real line (outside their domain: unknown)
    def mono(self, f, r, lo=-INF, hi=INF):
        out = []
        for a, b in r:
            if a < lo or b > hi:
                return ANY
            out.append((self.lim(f, a), self.lim(f, b)))
        return norm(out)

    @staticmethod
    def lim(f, x):
        try:
            return f(x)
        except OverflowError:
            return INF
        except (ValueError, ZeroDivisionError):
            return -INF if x == 0 else (INF if x > 0 else -INF)

    def compare(self, op, a, b):
        if not a or not b:
            return ()
        (al, ah), (bl, bh) = hull(a), hull(b)
        if op == "lt":
            if al >= bh:
                return ((0, 0),)
            if ah < bl:
                return ((1, 1),)
        elif op == "le":
            if al > bh:
                return ((0, 0),)
            if ah <= bl:
                return ((1, 1),)
        elif op in ("eq", "ne"):
            if not any(x[0] <= y[1] and y[0] <= x[1] for x in a for y in b):
                return ((0, 0),) if op == "eq" else ((1, 1),)
            if al == ah == bl == bh:
                return ((1, 1),) if op == "eq" else ((0, 0),)
        return BOOL

    def ev(self, t):
        op, A = t.op, t.args
        if op == "const":
            v = cval(t)
            if isinstance(v, (bool, int, float)):
                return ((float(v), float(v)),) if v == v else ANY
            return ANY
        if t in self.e.intervals:
            return (self.e.intervals[t],)
        if op in ("dim", "size", "ndim", "nnz"):
            return ((0, INF),)
        if op == "full":
            return self(A[1]) if len(A) > 1 else ANY
        if op == "eye":
            return BOOL
        if op in ("lt", "le", "eq", "ne") and len(A) == 2:
            return self.compare(op, self(A[0]), self(A[1]))
        if op == "draw":
            return self.draw(t)
        if op == "div" and len(A) == 2 and A[0].op == "rankdata" and A[1].op in ("size", "dim", "len"):
            return ((0, 1),)                               # ranks run from 1 to the sample size
        if op in ("pdist", "cdist", "var", "std", "norm", "rankdata", "nuc"):
            return ((0, INF),)
        if op in ("pvalue",) or op in ("dist.cdf", "dist.sf"):
            return ((0, 1),)
        if op in ("sum", "cumsum", "trace"):
            h = hull(self(A[0]))
            return ((min(h[0], 0) if h[0] == 0 else (0 if h[0] > 0 else -INF), 0 if h[1] <= 0 else INF),)
        if op in ("corr",):
            return ((-1, 1),)
        if op in ("ent", "vent", "vecent"):
            return self(A[0])
        if op in ("neg",):
            return norm([(-b, -a) for a, b in self(A[0])])
        if op in ("add", "sub", "mul", "div", "maximum", "minimum", "pow", "mod") and len(A) == 2:
            return self.arith(op, A[0], A[1])
        if op == "outer" and len(A) == 2:
            return self.arith("mul", A[0], A[1])
        if op == "square":
            return self.pw(self(A[0]), 2)
        if op in ("abs", "fabs"):
            return norm([(0 if a <= 0 <= b else min(abs(a), abs(b)), max(abs(a), abs(b))) for a, b in self(A[0])])
        if op == "sqrt":
            return self.mono(math.sqrt, norm([(max(a, 0), max(b, 0)) for a, b in self(A[0])]), 0)
        if op == "exp":
            return self.mono(math.exp, self(A[0]))
        if op == "log":
            return self.mono(math.log, self(A[0]), 0)
        if op == "log1p":
            return self.mono(math.log1p, self(A[0]), -1)
        if op == "sign":
            return norm([(-1 if a < 0 else (0 if a == 0 else 1), 1 if b > 0 else (0 if b == 0 else -1)) for a, b in self(A[0])])
        if op == "clip" and len(A) >= 3:
            r = self(A[0])
            lo = hull(self(A[1])) if not T.is_c(A[1], None) else (-INF, -INF)
            hi = hull(self(A[2])) if not T.is_c(A[2], None) else (INF, INF)
            return norm([(min(max(a, lo[0]), hi[0]), min(max(b, lo[1]), hi[1])) for a, b in r])
        if op in ("phi", "where") and len(A) == 3:
            return union(self(A[1]), self(A[2]))
        if op == "store":
            return union(self(A[0]), self(A[2]))
        if op == "mu":
            m = T.MU[t.data]
            init = self(m["init"])
            self.memo[t] = init
            nx = Ranges(self.e, {**self.facts, t: init})(m["next"]) if m["next"] is not None else ()
            j = union(init, nx)
            if j == init:
                return j
            nx2 = Ranges(self.e, {**self.facts, t: j})(m["next"])
            return j if union(j, nx2) == j else ANY
        if op in ("astype", "to"):
            r = self(A[0])
            d = cval(A[1]) if len(A) > 1 and A[1].op == "const" else None
            if d in ("bool", "bool_"):
                return ((0, 0),) if r == ((0, 0),) else (((1, 1),) if not any(a <= 0 <= b for a, b in r) else BOOL)
            if d in ("float", "float64"):
                return r
            return ANY if d is None else norm([(min(math.trunc(a), math.trunc(b)) if abs(a) < 1e18 else a,
                                                math.trunc(b) if abs(b) < 1e18 else b) for a, b in r])
        if op in ("getitem", "T", "copy", "asarray", "reshape", "ravel", "diag", "diagonal", "sort", "elem", "tile", "flatten", "array",
                  "squeeze", "expand", "roll", "flip", "delete", "item", "float", "copyof", "unique", "squareform") and A:
            if A[0].op in ("list", "tuple"):
                return self.many(A[0].args)
            r = self(A[0])
            if op == "diag" and self.e.lib.ndim(A[0]) != 2:
                return union(r, ((0, 0),))
            return r
        if op in ("triu", "tril", "blockdiag"):
            return union(self(A[0]), ((0, 0),))
        if op in ("list", "tuple"):
            return self.many(A)
        if op == "many":
            return self(A[0])
        if op in ("vstack", "hstack", "concat", "stack"):
            ps = A[0].args if len(A) == 1 and A[0].op in ("list", "tuple") else A
            return self.many(ps)
        if op in ("max", "min", "mean", "median", "quantile", "average"):
            r = self(A[0])
            return (hull(r),) if op in ("mean", "median", "quantile", "average") else r
        if op in ("not", "band", "bor", "any", "all", "isnan", "is", "isnot", "in", "notin"):
            return BOOL
        if op in ("and", "or", "xor", "invert"):
            return BOOL if all(within(self(a), BOOL) for a in A) else ANY
        return ANY

    def many(self, ts):
        r = ()
        for x in ts:
            r = union(r, self(x))
        return r or ANY

    def pw(self, r, k):
        out = []
        for a, b in r:
            c = [self.p1(a, k), self.p1(b, k)]
            if a <= 0 <= b and k > 0 and k % 2 == 0:
                c.append(0)
            if k < 0 and a <= 0 <= b:
                return ANY
            out.append((min(c), max(c)))
        return norm(out)

    @staticmethod
    def p1(x, k):
        try:
            return x ** k
        except OverflowError:
            return INF

    def arith(self, op, x, y):
        a, b = self(x), self(y)
        if op == "pow":
            if isnum(y) and float(cval(y)).is_integer():
                return self.pw(a, int(cval(y)))
            if isnum(y) and hull(a)[0] >= 0:
                return self.mono(lambda v: v ** cval(y), a, 0) if cval(y) > 0 else ANY
            return ANY
        if op == "add":
            return pairwise(lambda p, q: (p[0] + q[0], p[1] + q[1]), a, b)
        if op == "sub":
            return pairwise(lambda p, q: (p[0] - q[1], p[1] - q[0]), a, b)
        if op == "mul":
            if x is y:
                return self.pw(a, 2)
            return pairwise(mulp, a, b)
        if op == "div":
            if any(p[0] <= 0 <= p[1] for p in b):
                if hull(b)[0] >= 0:                       # divisor in [0, oo): sign survives
                    b = tuple((p[0] if p[0] > 0 else 0.0, p[1]) for p in b)
                    rec = [((0.0 if p[1] == INF else 1 / p[1]) if p[1] else 0.0, INF if p[0] == 0 else 1 / p[0]) for p in b]
                    return pairwise(mulp, a, norm(rec))
                return ANY
            rec = norm([(0.0 if abs(p[1]) == INF else 1 / p[1], 0.0 if abs(p[0]) == INF else 1 / p[0]) for p in b])
            return pairwise(mulp, a, rec)
        if op == "maximum":
            return pairwise(lambda p, q: (max(p[0], q[0]), max(p[1], q[1])), a, b)
        if op == "minimum":
            return pairwise(lambda p, q: (min(p[0], q[0]), min(p[1], q[1])), a, b)
        return ANY

    def draw(self, t):
        m = t.data[0]
        a = list(t.args[1:])

        def arg(i, name, d):
            v = a[i] if i < len(a) else t.kwd(name)
            return d if v is None else self(v)
        if m == "uniform":
            lo, hi = arg(0, "low", ((0, 0),)), arg(1, "high", ((1, 1),))
            x, y = hull(lo), hull(hi)
            return ((min(x[0], y[0]), max(x[1], y[1])),)
        if m in ("random", "rand", "random_sample"):
            return ((0, 1),)
        if m in ("exponential", "gamma", "chisquare", "standard_exponential", "poisson", "geometric"):
            return ((0, INF),)
        if m in ("integers", "randint"):
            lo = arg(0, "low", ((0, 0),))
            hi = a[1] if len(a) > 1 else t.kwd("high")
            end = t.kwd("endpoint")
            one = 0 if (end is not None and T.is_c(end, True)) else 1
            if hi is None or T.is_c(hi, None):
                lo, hi = ((0, 0),), lo
            else:
                hi = self(hi)
            x, y = hull(lo)[0], hull(hi)[1] - one
            if y - x <= 5:
                return norm([(float(v), float(v)) for v in range(int(x), int(y) + 1)])
            return ((x, y),)
        if m in ("choice", "permutation", "permuted", "shuffle"):
            return self(a[0]) if a and self.e.lib.ndim(a[0]) not in (0, None) or (a and a[0].op in ("list", "tuple", "array")) else ANY
        if m == "binomial":
            return ((0, hull(arg(0, "n", ANY))[1]),)
        if m == "beta":
            return ((0, 1),)
        if m == "triangular":
            return ((hull(arg(0, "left", ANY))[0], hull(arg(2, "right", ANY))[1]),)
        return ANY
