"""Polarity (monotonicity) analysis of a term in designated sub-terms.

'+' never decreases when the designated quantity grows (others fixed), '-' never increases, '0' independent,
'!' depends on it in a way that is neither (e.g. on the sign of a quantity of which only the size may matter), '?' unknown.
Arrays: entry by entry.  Boolean results are ordered False < True.
"""
from . import terms as T
from .terms import cval, isnum, is_c
from .ranges import hull

FLIP = {"+": "-", "-": "+", "0": "0", "?": "?", "!": "!"}
ISO = {"log", "exp", "sqrt", "log1p", "expm1", "astype", "copy", "asarray", "array", "T", "getitem", "reshape", "ravel", "diag", "diagonal",
       "sum", "mean", "max", "min", "maximum", "minimum", "median", "cumsum", "list", "tuple", "many", "vstack", "hstack", "concat", "stack", "fromiter",
       "triu", "tril", "squareform", "tile", "elem", "item", "float", "log2", "log10", "tanh", "sigmoid", "and", "or", "band", "bor", "any",
       "all", "floor", "ceil", "round", "rint", "tolist", "expand", "squeeze", "sort", "copyof", "detach", "cpu", "numpy", "nan_to_num", "sign",
       "arctan", "arctanh", "clone", "to", "nansum", "nanmean", "blockdiag", "gen", "iter", "nnz", "argwhere_", "transpose", "delete", "flatten", "fill",
       "trace", "relu", "softplus", "list1", "cbrt", "logsumexp", "average"}


def join(a, b):
    if a == b or b == "0":
        return a
    if a == "0":
        return b
    if "!" in (a, b):
        return "!"
    if "?" in (a, b):
        return "?"
    return "!"                    # both directions


class Polarity:
    def __init__(self, eng, ranges, var, even=(), closed=()):
        """var: designated terms (isotone unit).  even: designated terms of which only the absolute value may matter."""
        self.e, self.rg = eng, ranges
        self.var, self.even = set(var), set(even)
        self.memo = {}
        self.dep = {}
        self.hyp = {}

    def depends(self, t):
        if t.op in ("dim", "size", "shape", "ndim", "len"):
            return False
        if t in self.var or t in self.even:
            return True
        if t in self.dep:
            return self.dep[t]
        r = any(x in self.var or x in self.even for x in T.subterms(t, stop=lambda y: y.op in ("dim", "size", "shape", "ndim", "len")))
        self.dep[t] = r
        return r

    def __call__(self, t):
        if t in self.var:
            return "+"
        if t in self.even:
            return "!"
        if t in self.hyp:
            return self.hyp[t]
        if not self.depends(t):
            return "0"
        if t in self.memo:
            return self.memo[t]
        r = self.ev(t)
        if not self.hyp:
            self.memo[t] = r
        return r

    def sign(self, t):
        lo, hi = hull(self.rg(t)) if self.rg(t) else (0, 0)
        return 1 if lo >= 0 else (-1 if hi <= 0 else 0)

    def alljoin(self, ts):
        r = "0"
        for x in ts:
            r = join(r, self(x))
        return r

    def scale(self, p, s):
        return p if s > 0 or p == "0" else FLIP[p] if s < 0 else ("?" if p in "+-" else p)

    def even_base(self, t):
        """t is the absolute value or an even power of a designated 'even' term"""
        return t in self.even or (t.op in ("T", "copy", "asarray", "getitem", "neg", "triu", "tril", "array", "astype") and self.even_base(t.args[0]))

    def ev(self, t):
        op, A = t.op, t.args
        if op in ("abs", "fabs", "square") and self.even_base(A[0]):
            return "+"
        if op == "pow" and self.even_base(A[0]) and isnum(A[1]):
            k = cval(A[1])
            return "+" if k > 0 and k % 2 == 0 else "-" if k < 0 and k % 2 == 0 else "!"
        if op == "mul" and self.even_base(A[0]) and A[0] is A[1]:
            return "+"
        if op in ("neg", "not", "invert"):
            return FLIP[self(A[0])]
        if op == "add":
            return join(self(A[0]), self(A[1]))
        if op == "sub":
            return join(self(A[0]), FLIP[self(A[1])])
        if op in ("lt", "le"):
            return join(FLIP[self(A[0])], self(A[1]))
        if op == "mul":
            a, b = self(A[0]), self(A[1])
            return join(self.scale(a, self.sign(A[1])), self.scale(b, self.sign(A[0])))
        if op == "outer" and len(A) == 2:
            a, b = self(A[0]), self(A[1])
            return join(self.scale(a, self.sign(A[1])), self.scale(b, self.sign(A[0])))
        if op in ("matmul", "dot") and len(A) == 2:
            a, b = self(A[0]), self(A[1])
            return join(self.scale(a, self.sign(A[1])), self.scale(b, self.sign(A[0])))
        if op == "div":
            a, b = self(A[0]), self(A[1])
            r = self.scale(a, self.sign(A[1]))
            if b != "0":
                s = self.sign(A[0])
                lo, hi = hull(self.rg(A[1]))
                if lo < 0 < hi:
                    return "?" if b != "!" else "!"
                r = join(r, self.scale(FLIP[b], s))
            return r
        if op == "pow":
            if isnum(A[1]):
                k, p = cval(A[1]), self(A[0])
                if k == int(k) and int(k) % 2 == 1 and k > 0:
                    return p
                s = self.sign(A[0])
                if k > 0:
                    return self.scale(p, s)
                return FLIP[self.scale(p, s)] if p in "+-" and s else ("?" if p in "+-" else p)
            return "?" if "!" not in (self(A[0]), self(A[1])) else "!"
        if op in ("abs", "fabs", "square", "norm", "nuc", "l1", "l2"):
            p = self(A[0])
            return self.scale(p, self.sign(A[0])) if p in "+-" else p
        if op == "clip":
            return self.alljoin(A)
        if op.startswith("dist."):
            rest = self.alljoin([A[0]] + list(A[2:]))
            if rest != "0":
                return "?"
            return self(A[1]) if op in ("dist.cdf", "dist.ppf", "dist.logcdf") else FLIP[self(A[1])] if op in ("dist.sf", "dist.isf") else "?"
        if op in ISO:
            return self.alljoin([a for a in A] + [v for k, v in t.kw if k not in ("axis", "dtype", "keepdims")])
        if op == "pmap":
            return self(A[0])
        if op == "store":
            if self.depends(A[1]):
                return "?"
            return join(self(A[0]), self(A[2]))
        if op in ("where", "phi"):
            c, a, b = self(A[0]), self(A[1]), self(A[2])
            r = join(a, b)
            if c != "0":
                sa, sb = self.rg(A[1]), self.rg(A[2])
                if hull(sa)[0] >= hull(sb)[1]:
                    r = join(r, c)
                elif hull(sa)[1] <= hull(sb)[0]:
                    r = join(r, FLIP[c])
                else:
                    return "?"
            return r
        if op == "mu":
            m = T.MU[t.data]
            p = self(m["init"])
            for _ in range(4):
                self.hyp[t] = p
                q = join(p, self(m["next"]) if m["next"] is not None else "0")
                del self.hyp[t]
                if q == p:
                    return p
                p = q
            return "?"
        if op in ("eq", "ne"):
            return "?"
        return "?"
