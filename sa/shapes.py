"""Symbolic sizes: integer scalars as polynomials over atoms, array shapes as tuples of such polynomials.

`Shapes(eng).poly(t)` normalises an integer-valued term; `Shapes(eng).shape(t)` gives the shape of an array-valued term
(tuple of Poly) or None when it is not known.  Mismatching operands of an elementwise operation, product or
concatenation are collected in `.conflicts`.
"""
from fractions import Fraction

from . import terms as T
from .terms import NONE
from .libmodel import ELEMWISE1, ELEMWISE2


class Poly(dict):
    """{monomial (sorted tuple of atom keys): coefficient}"""

    def key(self):
        return tuple(sorted(self.items(), key=repr))

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        r = Poly(self)
        for m, c in o.items():
            r[m] = r.get(m, 0) + c
            if r[m] == 0:
                del r[m]
        return r

    def __neg__(self):
        return Poly({m: -c for m, c in self.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = Poly()
        for m, c in self.items():
            for n, d in o.items():
                k = tuple(sorted(m + n, key=repr))
                r[k] = r.get(k, 0) + c * d
                if r[k] == 0:
                    del r[k]
        return r

    @property
    def const(self):
        """the value of a constant polynomial, else None"""
        if not self:
            return 0
        if set(self) == {()}:
            return self[()]
        return None

    @property
    def sign(self):
        """'0', '+', '-' when every coefficient agrees (atoms are sizes, so non-negative), else '?'"""
        if not self:
            return "0"
        if all(c > 0 for c in self.values()):
            return "+"
        if all(c < 0 for c in self.values()):
            return "-"
        return "?"

    def __repr__(self):
        if not self:
            return "0"
        out = []
        for m, c in sorted(self.items(), key=repr):
            f = "*".join(atomname(a) for a in m)
            out.append(f if c == 1 and f else (f"{c}*{f}" if f else f"{c}"))
        return " + ".join(out)


def atomname(a):
    if a[0] == "dim":
        return f"dim({T.show(TERMS[a[1]], 2)})[{a[2]}]"
    if a[0] == "count":
        return f"count({T.show(TERMS[a[1]], 2)})"
    if a[0] == "term":
        return T.show(TERMS[a[1]], 3)
    return str(a)


TERMS = {}


def tk(t):
    TERMS[t.uid] = t
    return t.uid


def P(c):
    return Poly({(): c} if c else {})


def atom(*k):
    return Poly({(tuple(k),): 1})


ONE = P(1)


def unwrap(t):
    """the graph behind a 0/1 mask"""
    while True:
        if t.op == "astype" and len(t.args) == 2 and t.args[1].op == "const":
            t = t.args[0]
        elif t.op in ("copy", "asarray") and len(t.args) == 1:
            t = t.args[0]
        elif t.op == "ne" and any(T.is_c(a, 0) for a in t.args):
            t = [a for a in t.args if not T.is_c(a, 0)][0]
        elif t.op == "lt" and T.is_c(t.args[0], 0):
            t = t.args[1]
        else:
            return t


class Shapes:
    def __init__(self, eng, facts=None, polys=None, masks=()):
        self.eng, self.lib = eng, eng.lib
        self.facts = dict(facts or {})      # Term -> tuple of Poly
        self.pfacts = dict(polys or {})     # Term -> Poly
        self.masks = {unwrap(m) for m in masks}
        self.memo, self.pmemo, self.conflicts = {}, {}, []
        self.busy = set()

    # ---------------------------------------------------------------- integers
    def poly(self, t):
        if t not in self.pmemo:
            self.pmemo[t] = atom("term", tk(t))
            self.pmemo[t] = self._poly(t)
        return self.pmemo[t]

    def _poly(self, t):
        if t in self.pfacts:
            return self.pfacts[t]
        op = t.op
        if op == "const":
            v = T.cval(t)
            if isinstance(v, (int, bool)):
                return P(int(v))
            if isinstance(v, float) and v == int(v):
                return P(int(v))
        if op in ("add", "sub", "mul"):
            a, b = self.poly(t.args[0]), self.poly(t.args[1])
            return a + b if op == "add" else a - b if op == "sub" else a * b
        if op == "neg":
            return -self.poly(t.args[0])
        if op == "pow" and T.isnum(t.args[1]) and T.cval(t.args[1]) in (0, 1, 2, 3):
            r = ONE
            for _ in range(int(T.cval(t.args[1]))):
                r = r * self.poly(t.args[0])
            return r
        if op in ("astype", "round", "int") and t.args:
            return self.poly(t.args[0])
        if op in ("floordiv", "div", "mod"):
            a, b = self.poly(t.args[0]), self.poly(t.args[1])
            if a == b and op != "mod":
                return ONE
            if b.const and a.const is not None and op == "floordiv":
                return P(a.const // b.const)
            return atom(op, a.key(), b.key())
        if op == "dim":
            s = self.shape(t.args[0])
            if s is not None and -len(s) <= t.data < len(s):
                return s[t.data]
            return atom("dim", tk(t.args[0]), t.data)
        if op == "size":
            s = self.shape(t.args[0])
            if s is not None:
                return self.prod(s)
        if op == "sum" and not t.kw and self.is_mask(t.args[0]):
            return atom("count", tk(unwrap(t.args[0])))
        if op == "count_nonzero" and not t.kw:
            return atom("count", tk(unwrap(t.args[0])))
        if op == "phi":
            a, b = self.poly(t.args[1]), self.poly(t.args[2])
            if a == b:
                return a
        return atom("term", tk(t))

    @staticmethod
    def prod(ps):
        r = ONE
        for p in ps:
            r = r * p
        return r

    def is_mask(self, t):
        return self.lib.boolish(t) or unwrap(t) in self.masks

    # ---------------------------------------------------------------- shapes
    def shape(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return None
        self.busy.add(t)
        try:
            r = self.facts[t] if t in self.facts else self._shape(t)
        finally:
            self.busy.discard(t)
        self.memo[t] = r
        return r

    def spec(self, s):
        """a shape argument"""
        if s.op in ("tuple", "list") and not any(a.op.startswith("many") for a in s.args):
            return tuple(self.poly(a) for a in s.args)
        if s.op == "shape":
            return self.shape(s.args[0])
        if s is NONE:
            return ()
        if s.op in ("dim", "size", "sum", "add", "sub", "mul", "floordiv", "const", "pow", "count_nonzero", "param", "astype"):
            return (self.poly(s),)
        return None

    def bcast(self, ss, t):
        if any(s is None for s in ss):
            return None
        n = max(map(len, ss), default=0)
        out = []
        for i in range(n):
            ds = [s[len(s) - n + i] for s in ss if len(s) - n + i >= 0]
            ds = [d for d in ds if d != ONE] or [ONE]
            if any(d != ds[0] for d in ds):
                self.conflicts.append((t, ds))
                return None
            out.append(ds[0])
        return tuple(out)

    def _shape(self, t):
        op, A = t.op, t.args
        if op == "const":
            return () if isinstance(T.cval(t), (int, float, bool)) else None
        if op in ("full", "empty"):
            return self.spec(A[0])
        if op in ("store", "astype", "sort", "triu", "tril", "copy", "standardize", "rankdata", "roll", "flip", "permuted", "clip", "cumsum", "argsort",
                  "asarray", "inv", "copyof", "detach", "softmax"):
            s = self.shape(A[0])
            if op in ("cumsum", "argsort") and t.kwd("axis") is None and s is not None and len(s) > 1 and op == "cumsum":
                return (self.prod(s),)
            return s
        if op in ELEMWISE1:
            return self.shape(A[0])
        if op in ELEMWISE2 or op == "where" and len(A) == 3:
            return self.bcast([self.shape(a) for a in A], t)
        if op == "phi":
            a, b = self.shape(A[1]), self.shape(A[2])
            return a if a == b else None
        if op == "T":
            s = self.shape(A[0])
            return tuple(reversed(s)) if s is not None else None
        if op == "matmul":
            a, b = self.shape(A[0]), self.shape(A[1])
            if a is None or b is None or len(a) > 2 or len(b) > 2 or not a or not b:
                return None
            if a[-1] != b[0]:
                self.conflicts.append((t, [a[-1], b[0]]))
                return None
            return a[:-1] + b[1:]
        if op == "outer":
            a, b = self.shape(A[0]), self.shape(A[1])
            return (self.prod(a), self.prod(b)) if a is not None and b is not None else None
        if op == "eye":
            p = self.poly(A[0])
            return (p, self.poly(A[1]) if len(A) > 1 and A[1] is not NONE else p)
        if op in ("cov", "corr"):
            s = self.shape(A[0])
            return (s[1], s[1]) if s is not None and len(s) == 2 else None
        if op == "diag":
            s = self.shape(A[0])
            return None if s is None else (s[0], s[0]) if len(s) == 1 else s[:1] if len(s) == 2 else None
        if op == "diagonal":
            s = self.shape(A[0])
            return s[:1] if s is not None and len(s) == 2 else None
        if op == "arange":
            if len(A) == 1:
                return (self.poly(A[0]),)
            return None
        if op == "optx":
            s = self.shape(A[0])
            return (self.prod(s),) if s is not None else None
        if op == "reshape":
            s, n = self.shape(A[0]), A[1]
            parts = list(n.args) if n.op in ("tuple", "list") else [n]
            ps = [self.poly(p) for p in parts]
            neg = [i for i, p in enumerate(ps) if p.const == -1]
            if not neg:
                return tuple(ps)
            if len(neg) == 1 and s is not None:
                rest, tot = self.prod(p for i, p in enumerate(ps) if i not in neg), self.prod(s)
                q = divide(tot, rest)
                if q is not None:
                    ps[neg[0]] = q
                    return tuple(ps)
            return None
        if op == "ravel":
            s = self.shape(A[0])
            return (self.prod(s),) if s is not None else None
        if op in ("sum", "mean", "any", "all", "max", "min", "prod", "std", "var", "median", "quantile", "argmax", "argmin", "count_nonzero", "norm"):
            ax = t.kwd("axis")
            if ax is None or ax is NONE:
                return ()
            s = self.shape(A[0])
            if s is None or not T.isnum(ax):
                return None
            a = int(T.cval(ax))
            if not -len(s) <= a < len(s):
                return None
            a %= len(s)
            kd = t.kwd("keepdims")
            if kd is not None and T.is_c(kd, True):
                return s[:a] + (ONE,) + s[a + 1:]
            return s[:a] + s[a + 1:]
        if op in ("trace", "det", "slogdet_sign", "slogdet_log"):
            return ()
        if op == "draw":
            return self.draw(t)
        if op in ("vstack", "hstack", "concat", "stack"):
            return self.cat(t)
        if op == "tile":
            s, r = self.shape(A[0]), self.spec(A[1])
            if s is None or r is None:
                return None
            n = max(len(s), len(r))
            s, r = (ONE,) * (n - len(s)) + s, (ONE,) * (n - len(r)) + r
            return tuple(a * b for a, b in zip(s, r))
        if op == "array":
            if A[0].op in ("list", "tuple"):
                return self.listshape(A[0])
            return self.shape(A[0])
        if op in ("list", "tuple"):
            return self.listshape(t)
        if op in ("flatnonzero",):
            return (atom("count", tk(unwrap(A[0]))),)
        if op == "argwhere":
            s = self.shape(A[0])
            return (atom("count", tk(unwrap(A[0]))), P(len(s))) if s is not None else None
        if op == "getitem":
            return self.getitem(t)
        if op == "elem":
            s = self.shape(A[0])
            return s[1:] if s else None
        if op == "squareform" and A[0].op == "pdist":
            s = self.shape(A[0].args[0])
            return (s[0], s[0]) if s is not None and len(s) == 2 else None
        if op == "pmap":
            return None
        if op == "fromiter":
            if A[0].op == "pmap":
                n = self.iterlen(A[0].args[-1])
            else:
                n = self.iterlen(A[0])
            return (n,) if n is not None else None
        if op == "blockdiag":
            src = A[0].args[0] if len(A) == 1 and A[0].op == "star" else T.tup(list(A))
            if src.op in ("list", "tuple") and len(src.args) == 1 and src.args[0].op == "many":
                m = src.args[0]
                s, n = self.shape(m.args[0]), self.iterlen(m.args[1]) if len(m.args) == 2 else None
                return tuple(n * d for d in s) if s is not None and len(s) == 2 and n is not None else None
            ss = [self.shape(x) for x in src.args] if src.op in ("list", "tuple") else []
            if ss and all(s is not None and len(s) == 2 for s in ss):
                return sum((s[0] for s in ss), Poly()), sum((s[1] for s in ss), Poly())
            return None
        if op == "kron":
            a, b = self.shape(A[0]), self.shape(A[1])
            return tuple(p * q for p, q in zip(a, b)) if a is not None and b is not None and len(a) == len(b) else None
        if op == "ofshape":
            return self.spec(A[1])
        if op == "apply":
            f = A[0]
            s = self.shape(A[1]) if len(A) == 2 else None
            if f.op == "new:torch.nn.Linear" and s:
                i, o = f.kwd("in_features") or (f.args[0] if f.args else None), f.kwd("out_features") or (f.args[1] if len(f.args) > 1 else None)
                if i is None or o is None:
                    return None
                if self.poly(i) != s[-1]:
                    self.conflicts.append((t, [self.poly(i), s[-1]]))
                    return None
                return s[:-1] + (self.poly(o),)
            return None
        if op == "mu":
            m = T.MU[t.data]
            s = self.shape(m["init"])
            if s is None:
                return None
            sub = Shapes(self.eng, {**self.facts, t: s}, self.pfacts, self.masks)
            if m["next"] is t or sub.shape(m["next"]) == s:
                return s
            return None
        nd = self.lib.ndim(t)
        if nd is not None and 0 <= nd <= 4 and op in ("param", "attr", "field"):
            return tuple(atom("dim", tk(t), i) for i in range(nd))
        if nd == 0:
            return ()
        return None

    def iterlen(self, it):
        """number of items of an iterable term"""
        if it.op == "gen" and len(it.args) == 1:
            it = it.args[0]
        if it.op == "many" and len(it.args) == 2:
            return self.iterlen(it.args[1])
        if it.op == "zip":
            ns = {self.iterlen(a) for a in it.args}
            return ns.pop() if len(ns) == 1 else None
        if it.op in ("range", "arange") and len(it.args) == 1:
            return self.poly(it.args[0])
        if it.op in ("list", "tuple"):
            s = self.listshape(it)
            return s[0] if s else None
        s = self.shape(it)
        return s[0] if s else None

    def listshape(self, t):
        if not t.args:
            return (P(0),)
        if len(t.args) == 1 and t.args[0].op == "many":
            m = t.args[0]
            n = ONE
            for it in m.args[1:]:
                k = self.iterlen(it)
                if k is None:
                    return None
                n = n * k
            s = self.shape(m.args[0])
            return (n,) + s if s is not None else None
        if any(a.op == "many" for a in t.args):
            return None
        ss = [self.shape(a) for a in t.args]
        if any(s is None or s != ss[0] for s in ss):
            return None
        return (P(len(ss)),) + ss[0]

    def draw(self, t):
        meth = t.data[0]
        if meth in ("permutation", "permuted"):
            if len(t.args) < 2:
                return None
            s = self.shape(t.args[1])
            return s if s else (self.poly(t.args[1]),)
        z = t.kwd("size")
        if meth == "multivariate_normal":
            m = self.shape(t.args[1]) if len(t.args) > 1 else None
            s = () if z is None or z is NONE else self.spec(z)
            return s + m if m is not None and s is not None else None
        if z is None or z is NONE:
            return ()
        return self.spec(z)

    def cat(self, t):
        ps = list(t.args)
        if len(ps) == 1 and ps[0].op in ("tuple", "list"):
            ps = list(ps[0].args)
        ss = [self.shape(p) for p in ps]
        if any(s is None for s in ss) or not ss:
            return None
        if t.op == "stack":
            if any(s != ss[0] for s in ss):
                self.conflicts.append((t, ss))
                return None
            return (P(len(ss)),) + ss[0]
        if t.op == "vstack":
            ss = [(ONE,) + s if len(s) == 1 else s for s in ss]
            a = 0
        elif t.op == "hstack":
            a = 0 if all(len(s) == 1 for s in ss) else 1
        else:
            x = t.kwd("axis")
            a = int(T.cval(x)) if x is not None and T.isnum(x) else 0
        n = len(ss[0])
        if any(len(s) != n for s in ss) or not -n <= a < n:
            return None
        a %= n
        out = []
        for i in range(n):
            if i == a:
                p = Poly()
                for s in ss:
                    p = p + s[i]
                out.append(p)
            else:
                if any(s[i] != ss[0][i] for s in ss):
                    self.conflicts.append((t, [s[i] for s in ss]))
                    return None
                out.append(ss[0][i])
        return tuple(out)

    # ---------------------------------------------------------------- subscripts
    def bounds(self, n, sl):
        """(lo, hi) of a unit-step slice of an axis of length n, as polynomials"""
        lo, hi, st = sl.args
        if not (st is NONE or T.is_c(st, 1)):
            return None

        def at(b, dflt):
            if b is NONE:
                return dflt
            p = self.poly(b)
            return n + p if p.sign == "-" else p
        return at(lo, Poly()), at(hi, n)

    def getitem(self, t):
        x, ix = t.args
        s = self.shape(x)
        if x.op in ("nonzero", "where1") and T.isnum(ix):
            return (atom("count", tk(unwrap(x.args[0]))),)
        if x.op in ("triu_indices", "tril_indices") and T.isnum(ix):
            n, k = self.poly(x.args[0]), x.args[1] if len(x.args) > 1 else T.const(0)
            return (atom("pairs", n.key(), repr(T.cval(k)) if T.isnum(k) else k.uid),)
        if s is None:
            return None
        parts = list(ix.args) if ix.op == "tuple" else [ix]
        out, ax, fancy, at = [], 0, [], None
        for p in parts:
            if p is NONE or p.op == "newaxis":
                out.append(ONE)
                continue
            if p.op == "const" and T.cval(p) is Ellipsis:
                return None
            if ax >= len(s):
                return None
            if p.op == "slice":
                b = self.bounds(s[ax], p)
                if b is None:
                    return None
                out.append(b[1] - b[0])
                ax += 1
                continue
            if p.op in ("nonzero", "where1"):
                k = len(self.shape(p.args[0]) or ())
                if not k:
                    return None
                fancy.append((atom("count", tk(unwrap(p.args[0]))),))
                at = len(out) if at is None else at
                ax += k
                continue
            ps = self.shape(p)
            if ps is None:
                if self.lib.scalarint(p):
                    ax += 1
                    continue
                return None
            if self.is_mask(p) and ps:
                fancy.append((atom("count", tk(unwrap(p))),))
                at = len(out) if at is None else at
                ax += len(ps)
                continue
            if ps == ():
                ax += 1
                continue
            fancy.append(ps)
            at = len(out) if at is None else at
            ax += 1
        out += s[ax:]
        if fancy:
            f = self.bcast(fancy, t)
            if f is None:
                return None
            out[at:at] = f
        return tuple(out)


def divide(a, b):
    """exact quotient of polynomials when b is a monomial"""
    if len(b) != 1:
        return ONE if a == b else None
    (m, c), = b.items()
    r = Poly()
    for n, d in a.items():
        left = list(n)
        for x in m:
            if x not in left:
                return None
            left.remove(x)
        q = Fraction(d, c)
        r[tuple(left)] = int(q) if q.denominator == 1 else q
    return r
