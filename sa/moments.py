"""Row-wise moments of Gaussian value-flow terms.

`Moments(eng, shapes)(t)` interprets an (n x m) array term whose rows are independent and identically distributed: it
returns Rows(mean, cov, n, draws, gaussian) with mean a length-m term (or ZERO), cov an m-by-m term in the algebra of
sa.normal, or None when the term is not understood.  A `Wrong` result pinpoints a construct that makes rows dependent or
mixes one draw into two operands.
"""
from . import terms as T
from .terms import mk, const, NONE
from .normal import norm, ONE, num

ZERO = const(0)
ID = mk("IDENTITY")
INTS = {"int", "int64", "int32", "bool", "int16", "int8", "uint8", "long", "bool_"}
NOT_AFFINE = dict({"unique": "rows are sorted and merged", "sort": "values are reordered", "cumsum": "rows are accumulated"},
                  **{f: f + " of a sample is not Gaussian" for f in ("abs", "round", "clip", "exp", "tanh", "square", "floor", "maximum", "minimum", "sign", "sigmoid", "relu")})


class Rows:
    def __init__(self, mean, cov, n, draws):
        self.mean, self.cov, self.n, self.draws = mean, cov, n, draws


class Wrong:
    def __init__(self, why, term):
        self.why, self.term = why, term


def addt(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return mk("add", (a, b))


def vecsq(s):
    return s.args[0] if s.op == "sqrt" else mk("pow", (s, const(2)))


class Moments:
    def __init__(self, eng, shapes):
        self.lib, self.S = eng.lib, shapes

    def zero(self, t):
        return t.op == "full" and T.isnum(t.args[1]) and T.cval(t.args[1]) == 0 or T.is_c(t, 0) or T.is_c(t, 0.0)

    def ident(self, t):
        return t.op == "eye" or t.op == "diag" and t.args[0].op == "full" and T.isnum(t.args[0].args[1]) and T.cval(t.args[0].args[1]) == 1

    def random(self, t):
        return any(x.op == "draw" for x in T.subterms(t, stop=lambda x: x.op in ("dim", "size", "shape", "optx")))

    def __call__(self, t):
        op, A = t.op, t.args
        if op in ("astype", "asarray", "array") and A and any(T.cval(x) in INTS for x in list(A[1:]) + [v for _, v in t.kw] if x.op == "const" and isinstance(T.cval(x), str)):
            z = self(A[0])
            return Wrong("values are truncated to integers", t) if isinstance(z, Rows) else z
        if op in ("astype", "copy", "asarray", "array") and A:
            return self(A[0])
        if op in NOT_AFFINE and A and self.random(A[0]):
            z = self(A[0])
            return Wrong(NOT_AFFINE[op], t) if isinstance(z, Rows) else z
        if op == "T" and A[0].op == "draw":
            s = self.S.shape(A[0])
            z = self.iid(A[0])
            if s is not None and len(s) == 2 and z is not None:
                return Rows(z[0], mk("SCALEDID", (z[1],)), s[1], {A[0]})
            return None
        if op == "T" and A[0].op == "matmul":
            return self(mk("matmul", (T.transpose(A[0].args[1]), T.transpose(A[0].args[0]))))
        if op == "draw":
            return self.draw(t)
        if op == "matmul":
            if self.random(A[1]):
                return None
            z = self(A[0])
            if not isinstance(z, Rows):
                return z
            W = A[1]
            if z.cov is ID:
                c = mk("matmul", (T.transpose(W), W))
            else:
                c = mk("matmul", (T.transpose(W), mk("matmul", (z.cov, W))))
            m = ZERO if z.mean is ZERO else mk("matmul", (z.mean, W))
            return Rows(m, c, z.n, z.draws)
        if op in ("add", "sub"):
            r0, r1 = self.random(A[0]), self.random(A[1])
            if r0 and r1:
                a, b = self(A[0]), self(A[1])
                for x in (a, b):
                    if not isinstance(x, Rows):
                        return x
                if a.draws & b.draws:
                    return Wrong("latents and errors share a draw", sorted(a.draws & b.draws, key=lambda x: x.uid)[0])
                if a.n != b.n:
                    one = self.S.prod(())
                    if a.n == one or b.n == one:
                        return Wrong("one draw is shared by all rows", t)
                    return None
                mb = b.mean if op == "add" or b.mean is ZERO else mk("neg", (b.mean,))
                return Rows(addt(a.mean, mb), addt(a.cov, b.cov), a.n, a.draws | b.draws)
            x, v = (A[0], A[1]) if r0 else (A[1], A[0])
            if not r0 and not r1:
                return None
            z = self(x)
            if not isinstance(z, Rows):
                return z
            s = self.S.shape(v)
            if s is None or len(s) > 1 and not (len(s) == 2 and s[0] == self.S.prod(())):
                return None
            if op == "sub" and not r0:
                return None
            v = v if op == "add" else mk("neg", (v,))
            return Rows(v if z.mean is ZERO else addt(z.mean, v), z.cov, z.n, z.draws)
        if op in ("mul", "div"):
            r0, r1 = self.random(A[0]), self.random(A[1])
            if r0 and r1:
                return None
            x, v = (A[0], A[1]) if r0 else (A[1], A[0])
            if op == "div" and not r0:
                return None
            z = self(x)
            if not isinstance(z, Rows):
                return z
            s = self.S.shape(v)
            if s is None or len(s) > 1:
                return None
            if op == "div":
                v = mk("div", (const(1), v))
            m = ZERO if z.mean is ZERO else mk("mul", (z.mean, v))
            if z.cov is ID and len(s) == 1:
                return Rows(m, mk("diag", (vecsq(v),)), z.n, z.draws)
            if s == ():
                return Rows(m, mk("mul", (z.cov, vecsq(v))), z.n, z.draws)
            return None
        if op == "np:unique" and self.random(A[0]):
            z = self(A[0])
            return Wrong("rows are sorted and merged", t) if isinstance(z, Rows) else z
        return None

    def iid(self, t):
        """(mean, variance) of an elementwise independent Gaussian draw with scalar parameters"""
        meth = t.data[0]
        if meth in ("standard_normal", "randn"):
            return ZERO, ONE
        if meth == "normal":
            loc = t.args[1] if len(t.args) > 1 else t.kwd("loc") or ZERO
            sc = t.args[2] if len(t.args) > 2 else t.kwd("scale") or ONE
            return loc, vecsq(sc) if sc is not ONE else ONE
        return None

    def draw(self, t):
        s = self.S.shape(t)
        if s is None:
            return None
        meth = t.data[0]
        if meth == "multivariate_normal":
            if len(s) == 1:
                return Rows(t.args[1], t.args[2], self.S.prod(()), {t})
            if len(s) != 2 or len(t.args) < 3:
                return None
            m, c = t.args[1], t.args[2]
            return Rows(ZERO if self.zero(m) else m, ID if self.ident(c) else c, s[0], {t})
        z = self.iid(t)
        if z is None:
            if meth in ("random", "uniform", "rand", "integers", "exponential", "laplace", "standard_t", "standard_exponential", "choice", "poisson", "standard_cauchy",
                        "gumbel", "logistic", "random_sample"):
                return Wrong(f"{meth} is not Gaussian", t)
            return None
        loc, var = z
        if len(s) == 1:
            return Rows(ZERO if self.zero(loc) else loc, ID if T.is_c(var, 1) else mk("diag", (var,)), self.S.prod(()), {t})
        if len(s) != 2:
            return None
        if T.is_c(var, 1):
            c = ID
        else:
            vs = self.S.shape(var)
            if vs is None:
                return None
            c = mk("diag", (var,)) if len(vs) == 1 else mk("mul", (ID, var)) if vs == () else None
            if c is None:
                return None
        return Rows(ZERO if self.zero(loc) else loc, c, s[0], {t})
