"""Monotonicity of scalar expressions: does a term in normal form (sa.normal) grow or shrink with a given part of it?

pol(t) is one of
  "0"    independent of the part
  "+"    never decreases when the part grows      "-"  never increases
  "lin"  linear in the difference vector d (before it is squared)
  "mix"  grows in one summand and shrinks in another
  "odd"  contains the two vectors but not as their difference
  None   not understood
leaf(t) gives the polarity of the part itself; it is asked first.
"""
from . import terms as T
from .normal import items, num

REDUCE = {"sum", "mean", "trace", "diagonal", "reshape", "ravel", "item", "float", "tofloat", "astype", "asarray", "array", "copyof", "nansum", "squeeze", "stack", "list"}
MONO = {"exp", "log", "sqrt", "log1p", "expm1", "relu", "softplus", "maximum"}
POS = {"exp", "abs", "norm", "softplus", "sigmoid", "dim", "size", "len", "relu", "square", "var", "std"}


class Polarity:
    def __init__(self, leaf, uses, nonneg=(), linleaf=None):
        self.leaf, self.uses, self.nonneg, self.linleaf = leaf, uses, set(nonneg), linleaf
        self.memo = {}

    # ---- signs of independent factors: +1 nonnegative, -1 nonpositive, None
    def sign(self, t):
        c = num(t)
        if c is not None:
            return 1 if c >= 0 else -1
        if t in self.nonneg or t.op in POS:
            return 1
        if t.op in ("sum", "mean", "RECIP", "sqrt", "reshape", "ravel", "item", "getitem", "T", "maximum", "stack", "list", "diagonal", "elem"):
            return self.sign(t.args[0]) if t.args else None
        if t.op == "many":
            return self.sign(t.args[0])
        if t.op == "pow" and len(t.args) == 2:
            n = num(t.args[1])
            return 1 if n is not None and n.denominator == 1 and n % 2 == 0 else self.sign(t.args[0])
        if t.op == "SCALED":
            s = self.sign(t.args[0])
            return None if s is None else s * (1 if t.data >= 0 else -1)
        if t.op == "SUM":
            ss = set()
            for k, v in items(t).items():
                s = self.sign(k)
                ss.add(None if s is None else s * (1 if v >= 0 else -1))
            return ss.pop() if len(ss) == 1 else None
        if t.op == "PROD":
            r, left = 1, {}
            for f in t.args:
                left[f] = left.get(f, 0) + 1
            for f, n in left.items():
                if n % 2 == 0:
                    continue
                s = self.sign(f)
                if s is None:
                    return None
                r *= s
            return r
        if t.op in ("det", "slogdet_det"):
            return self.definite(t.args[0])
        return None

    def definite(self, m):
        """+1 / -1 when the symmetric matrix (or positive scalar) m is positive / negative definite by construction"""
        c = num(m)
        if c is not None:
            return 1 if c > 0 else -1 if c < 0 else None
        if m.op in ("inv", "T", "mean", "sum", "stack", "list", "many", "copyof", "asarray", "cholesky_inverse"):
            return self.definite(m.args[0]) if m.args else None
        if m.op == "eye":
            return 1
        if m.op in ("diag", "diagflat", "diag_embed"):
            return self.sign(m.args[0])
        if m.op == "SCALED":
            s = self.definite(m.args[0])
            return None if s is None else s * (1 if m.data > 0 else -1)
        if m.op == "SUM":
            ss = {None if (s := self.definite(k)) is None else s * (1 if v > 0 else -1) for k, v in items(m).items()}
            return ss.pop() if len(ss) == 1 else None
        if m.op == "PROD":
            r, mats = 1, 0
            for f in m.args:
                s = self.sign(f)
                if s is None:
                    s = self.definite(f)
                    mats += 1
                if s is None or mats > 1:
                    return None
                r *= s
            return r
        return None

    # ---- polarity
    def pol(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self.rule(t)
        return self.memo[t]

    def rule(self, t):
        p = self.leaf(t)
        if p is not None:
            return p
        if not self.uses(t):
            return "0"
        op, a = t.op, t.args
        if self.linleaf is not None:
            p = self.linleaf(t)
            if p is not None:
                return p
        if op == "SCALED":
            return self.flip(self.pol(a[0]), 1 if t.data > 0 else -1)
        if op == "SUM":
            ps = [self.flip(self.pol(k), 1 if v > 0 else -1) for k, v in items(t).items()]
            return self.join(ps)
        if op == "PROD":
            return self.prod(a)
        if op == "RECIP":
            p = self.pol(a[0])
            return {"+": "-", "-": "+"}.get(p)
        if op == "neg":
            return self.flip(self.pol(a[0]), -1)
        if op == "matmul":
            return self.matmul(a)
        if op == "T":
            return self.pol(a[0])
        if op == "norm":
            p = self.pol(a[0])
            return "+" if p in ("lin", "+") else None
        if op in ("abs", "square"):
            return "+" if self.pol(a[0]) in ("lin", "+") else None
        if op == "pow":
            p, n = self.pol(a[0]), num(a[1])
            if n is None or n <= 0:
                return None
            if p == "lin":
                return "+" if n.denominator == 1 and n % 2 == 0 else None
            return p if p == "+" else None
        if op == "mean" and self.pol(a[0]) == "lin" or op == "sum" and self.pol(a[0]) == "lin":
            return None
        if op in REDUCE or op == "getitem" or op == "many":
            p = self.pol(a[0])
            return p
        if op in MONO:
            p = self.pol(a[0])
            return p if p in ("+", "-", "mix", "odd") else None
        if op == "phi":
            return self.join([self.pol(x) for x in a[1:]], False)
        ps = {self.pol(x) for x in a}
        return "odd" if "odd" in ps else None

    def flip(self, p, s):
        if s is None:
            return None if p in ("+", "-", "mix") else p
        return {"+": "-", "-": "+"}.get(p, p) if s < 0 else p

    def join(self, ps, add=True):
        s = set(ps) - {"0"}
        if not s:
            return "0"
        if "odd" in s:
            return "odd"
        if None in s:
            return None
        if len(s) == 1:
            return s.pop()
        return "mix" if s <= {"+", "-", "mix"} else None

    def prod(self, fs):
        use = [f for f in fs if self.pol(f) != "0"]
        s = 1
        rest = {}
        for f in fs:
            if f not in use:
                rest[f] = rest.get(f, 0) + 1
        for f, n in rest.items():
            x = 1 if n % 2 == 0 else self.sign(f)
            s = None if x is None or s is None else s * x
        ps = [self.pol(f) for f in use]
        if "odd" in ps:
            return "odd"
        if len(use) == 1:
            if ps[0] == "lin":
                return "lin" if s is not None else None
            return self.flip(ps[0], s)
        if len(use) == 2 and ps == ["lin", "lin"]:
            g = [self.gain(f) for f in use]
            if None in g or s is None:
                return None
            return self.flip("+", s * g[0] * g[1])
        if all(p == "+" and self.sign(f) == 1 for p, f in zip(ps, use)):
            return self.flip("+", s)
        return None

    def gain(self, t):
        """sign of the (definite) map from the difference to a linear term; the orientation of the difference is irrelevant to even products of the same term"""
        base = self.linleaf(t)
        if base is not None:
            return self.orient(t)
        if t.op == "T":
            return self.gain(t.args[0])
        if t.op == "SCALED":
            g = self.gain(t.args[0])
            return None if g is None else g * (1 if t.data > 0 else -1)
        if t.op == "PROD":
            g = 1
            for f in t.args:
                x = self.gain(f) if self.pol(f) == "lin" else self.sign(f)
                if x is None:
                    return None
                g *= x
            return g
        if t.op == "matmul":
            g = 1
            for f in t.args:
                x = self.gain(f) if self.pol(f) == "lin" else self.definite(f)
                if x is None:
                    return None
                g *= x
            return g
        return None

    def orient(self, t):
        return 1

    def matmul(self, a):
        ps = [self.pol(x) for x in a]
        if "odd" in ps:
            return "odd"
        if ps == ["lin", "lin"]:
            g = [self.gain(x) for x in a]
            return None if None in g else "+" if g[0] * g[1] > 0 else "-"
        if set(ps) == {"lin", "0"}:
            return "lin"
        return None
