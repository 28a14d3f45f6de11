"""Algebraic normal form of terms: sums as linear combinations, products as sorted monomials, common matrix identities.

norm(t) rebuilds t bottom-up with
  SUM  args = distinct non-sum terms, data = their coefficients (sorted by term id; constants are folded under ONE)
  PROD args = factors of an elementwise/scalar product (powers repeated), without numeric factor
and rewrites  -logdet(inv X) = logdet X,  trace(AB) = trace(BA) (ordered),  ||X||_F^2 = sum(X^2),  sum(|X|) = ||ravel X||_1,
(AB)^T = B^T A^T,  inv inv X = X.
"""
from fractions import Fraction

from . import terms as T
from .terms import mk, const

ONE = const(1)


def num(t):
    if t.op == "const":
        v = T.cval(t)
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return Fraction(v)
        if isinstance(v, float) and v == v and abs(v) != float("inf"):
            return Fraction(v).limit_denominator(10**9)
    return None


def items(t):
    """linear combination {term: coefficient} of a normalised term"""
    if t.op == "SUM":
        return dict(zip(t.args, t.data))
    c = num(t)
    if c is not None:
        return {ONE: c} if c else {}
    if t.op == "SCALED":
        return {t.args[0]: t.data}
    return {t: Fraction(1)}


def build(d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return const(0)
    ks = sorted(d, key=lambda k: k.uid)
    if len(ks) == 1:
        k, c = ks[0], d[ks[0]]
        if k is ONE:
            return const(int(c) if c.denominator == 1 else float(c))
        return k if c == 1 else mk("SCALED", (k,), data=c)
    return mk("SUM", ks, data=tuple(d[k] for k in ks))


def addn(a, b, s=1):
    d = dict(items(a))
    for k, v in items(b).items():
        d[k] = d.get(k, 0) + s * v
    return build(d)


def factors(t):
    """(coefficient, [factors]) of a normalised term"""
    c = num(t)
    if c is not None:
        return c, []
    if t.op == "SCALED":
        k, f = factors(t.args[0])
        return t.data * k, f
    if t.op == "PROD":
        return Fraction(1), list(t.args)
    return Fraction(1), [t]


def muln(a, b):
    ca, fa = factors(a)
    cb, fb = factors(b)
    c, fs = ca * cb, sorted(fa + fb, key=lambda k: k.uid)
    if not c:
        return const(0)
    if not fs:
        return build({ONE: c})
    if len(fs) == 1 and fs[0].op == "SUM":
        return build({k: v * c for k, v in items(fs[0]).items()})
    m = fs[0] if len(fs) == 1 else mk("PROD", fs)
    return build({m: c})


def scale(t, c):
    return build({k: v * c for k, v in items(t).items()})


def norm(t, pre=None, memo=None):
    """normal form; pre(x) may replace a subterm (its result is taken as already normal)"""
    memo = {} if memo is None else memo

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = x
        if pre is not None:
            y = pre(x)
            if y is not None:
                memo[x] = y
                return y
        memo[x] = r = rule(x)
        return r

    def rule(x):
        if not x.args and not x.kw:
            return x
        a = [go(y) for y in x.args]
        op = x.op
        if op == "detach":
            return a[0]
        if op == "SUM":
            r = const(0)
            for y, c in zip(a, x.data):
                r = addn(r, scale(y, c))
            return r
        if op == "SCALED":
            return scale(a[0], x.data)
        if op == "PROD":
            r = a[0]
            for y in a[1:]:
                r = muln(r, y)
            return r
        if op == "add":
            return addn(a[0], a[1])
        if op == "sub":
            return addn(a[0], a[1], -1)
        if op == "neg":
            return scale(a[0], Fraction(-1))
        if op == "mul":
            return muln(a[0], a[1])
        if op == "div":
            c = num(a[1])
            if c:
                return scale(a[0], 1 / c)
            return muln(a[0], mk("RECIP", (a[1],)))
        if op == "pow" and num(a[1]) == 2:
            if a[0].op == "norm" and (len(a[0].args) == 1 or T.is_c(a[0].args[1], "fro")) and not a[0].kw:
                return rule2("sum", [muln(a[0].args[0], a[0].args[0])], x)
            if a[0].op == "sqrt":
                return a[0].args[0]
            return muln(a[0], a[0])
        if op == "square":
            return muln(a[0], a[0])
        return rule2(op, a, x)

    def rule2(op, a, x):
        if op in ("T",) and len(a) == 1:
            y = a[0]
            if y.op == "SUM":
                return build({rule2("T", [k], None): v for k, v in items(y).items()})
            if y.op == "SCALED":
                return build({rule2("T", [y.args[0]], None): y.data})
            if y.op == "T":
                return y.args[0]
            if y.op == "matmul":
                return mk("matmul", (rule2("T", [y.args[1]], None), rule2("T", [y.args[0]], None)))
            if y.op in ("diag", "cov", "corr", "eye"):
                return y
            return mk("T", (y,))
        if op == "inv" and a[0].op == "inv":
            return a[0].args[0]
        if op == "slogdet_log" and a[0].op == "inv":
            return build({mk("slogdet_log", (a[0].args[0],)): Fraction(-1)})
        if op == "slogdet_sign" and a[0].op == "inv":
            return mk("slogdet_sign", (a[0].args[0],))
        if op == "log" and a[0].op == "det":
            return rule2("slogdet_log", [a[0].args[0]], None)
        if op == "trace" and a[0].op == "matmul":
            p, q = sorted(a[0].args, key=lambda k: k.uid)
            return mk("trace", (mk("matmul", (p, q)),))
        if op == "sum" and a[0].op == "abs" and (x is None or not x.kw):
            return mk("norm", (mk("ravel", (a[0].args[0],)), const(1)))
        if op == "matmul":
            ca, fa = factors(a[0])
            cb, fb = factors(a[1])
            if ca * cb != 1 and len(fa) == 1 and len(fb) == 1:
                return build({mk("matmul", (fa[0], fb[0])): ca * cb})
        kw = () if x is None else tuple((n, go(v)) for n, v in x.kw)
        data = None if x is None else x.data
        return mk(op, a, kw, data)
    return go(t)


def expand(t):
    """distribute products over sums at the top level of a normal form"""
    out = {}
    for k, v in items(t).items():
        fs = list(k.args) if k.op == "PROD" else [k]
        sums = [f for f in fs if f.op == "SUM"]
        if not sums or len(sums) > 3:
            out[k] = out.get(k, 0) + v
            continue
        s = sums[0]
        rest = list(fs)
        rest.remove(s)
        for x, c in items(s).items():
            y = const(1)
            y = build({ONE: Fraction(1)})
            for f in rest:
                y = muln(y, f)
            y = muln(y, x) if x is not ONE else y
            for k2, v2 in items(expand(y)).items():
                out[k2] = out.get(k2, 0) + v * c * v2
    return build(out)
