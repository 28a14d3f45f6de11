"""Generic-entry analysis of square matrices.

The value of a matrix term is a triple (L, D, U) of entry terms: a generic entry below the diagonal at (i, j), a diagonal
entry at (i, i), and the mirrored entry (j, i) above the diagonal.  The matrix is symmetric iff L and U are the same
entry term (commutative operators are ordered canonically, so `a or b` equals `b or a`).
Leaf entries: ent(X)#L/D/U of a matrix we do not look into, vent(v)#i/#j an entry of a broadcast vector,
vecent(v, idx) an entry of a vector scattered over an index set.
"""
from . import terms as T
from .terms import mk, const, cval, is_c, isnum

ELEM1 = {"neg", "abs", "log", "exp", "sqrt", "log1p", "expm1", "invert", "not", "sign", "square", "isnan", "fabs", "tanh", "floor", "ceil",
         "isfinite", "round", "log2", "log10", "arctanh", "nan_to_num", "asarray", "copy", "cpu", "array"}
ELEM2 = {"add", "sub", "mul", "div", "pow", "lt", "le", "eq", "ne", "and", "or", "xor", "maximum", "minimum", "floordiv", "mod"}
SWAPV = {"i": "j", "j": "i", "d": "d"}


def isym(x):
    return mk("ent", (x,), data="S")


class Regions:
    def __init__(self, eng, ranges, n=None):
        """n: predicate telling whether a term is the matrix side length"""
        self.e, self.lib, self.rg = eng, eng.lib, ranges
        self.memo = {}
        self.seenmu = {}

    def same(self, t):
        return (t, t, t)

    def opaque(self, t):
        return (mk("ent", (t,), data="L"), mk("ent", (t,), data="D"), mk("ent", (t,), data="U"))

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.ev(t)
        return self.memo[t]

    # one entry expression, folded
    def op(self, o, *es, kw=()):
        if o == "copy" or o == "asarray" or (o == "array" and len(es) == 1):
            return es[0]
        if len(es) == 2 and o in ELEM2:
            r = T.binop(o, *es)
            if r.op in ("and", "or") and len(r.args) == 2:
                for a, b in (r.args, r.args[::-1]):
                    c = self.truth(a)
                    if c is not None and self.isbool(b):
                        return (b if c else T.FALSE) if r.op == "and" else (T.TRUE if c else b)
        else:
            r = mk(o, es, kw)
        if o in ("invert", "not") and self.truth(es[0]) is not None and self.isbool(es[0]):
            return const(not self.truth(es[0]))
        if r.op in ("lt", "le", "eq", "ne", "and", "or"):
            c = self.truth(r)
            if c is not None:
                return const(c)
        return r

    def isbool(self, e):
        if e.op == "const":
            return isinstance(cval(e), bool)
        if e.op in ("ent", "vent", "vecent"):
            return self.lib.boolish(e.args[0])
        if e.op in ("lt", "le", "eq", "ne", "isnan", "isfinite"):
            return True
        if e.op in ("and", "or", "xor", "invert", "not"):
            return all(self.isbool(a) for a in e.args)
        return False

    def truth(self, e):
        if e.op == "const" and isinstance(cval(e), bool):
            return cval(e)
        r = self.rg(e)
        if r == ((0, 0),):
            return False
        if self.isbool(e) and r == ((1, 1),):
            return True
        return None

    def nd(self, t):
        return self.lib.ndim(t)

    # --------------------------------------------------------------------------
    def index(self, ix, n=None):
        """classify a store/getitem index: ('U'|'L', k, base term, swapped) | ('D',) | None"""
        if ix.op == "diagidx":
            return ("D", 0, ix)
        sw = False
        base = None
        if ix.op in ("triu_indices", "tril_indices"):
            base = ix
        elif ix.op == "tuple" and len(ix.args) == 2 and all(
                a.op == "getitem" and a.args[0].op in ("triu_indices", "tril_indices") for a in ix.args):
            a, b = ix.args
            if a.args[0] is b.args[0] and is_c(a.args[1], 0) and is_c(b.args[1], 1):
                base = a.args[0]
            elif a.args[0] is b.args[0] and is_c(a.args[1], 1) and is_c(b.args[1], 0):
                base, sw = a.args[0], True
        elif ix.op == "tuple" and len(ix.args) == 2 and ix.args[0] is ix.args[1] and ix.args[0].op in ("range", "arange"):
            return ("D", 0, ix)
        if base is None:
            return None
        k = base.args[1] if len(base.args) > 1 else const(0)
        if not isnum(k):
            return None
        k = int(cval(k))
        up = base.op == "triu_indices"
        if not up:
            k = -k
        if k not in (0, 1):
            return None
        side = "U" if up != sw else "L"
        return (side, k, base)

    def scal(self, v):
        return self.nd(v) == 0 or v.op == "const"

    def vec_at(self, v, side, base):
        """entry at region `side` of the values v stored over index set base"""
        if self.scal(v):
            return v
        if v.op in ELEM1 and len(v.args) == 1:
            return self.op(v.op, self.vec_at(v.args[0], side, base))
        if v.op in ELEM2 and len(v.args) == 2:
            return self.op(v.op, *(self.vec_at(a, side, base) for a in v.args))
        if v.op == "getitem":
            ix = self.index(v.args[1])
            if ix and ix[0] != "D" and ix[2] is base:
                l, d, u = self(v.args[0])
                return u if ix[0] == "U" else l
        return mk("vecent", (v, base))

    def ev(self, t):
        op, A = t.op, t.args
        if op == "const" or (self.nd(t) == 0 and op not in ("phi",)):
            return self.same(t)
        if op == "full" and len(A) > 1:
            return self.same(A[1]) if self.scal(A[1]) else self.opaque(t)
        if op == "getitem" and A[1].op == "tuple" and len(A[1].args) == 2 and all(turned(x) for x in A[1].args) or op == "flip" and len(A) == 1 and not t.kw:
            l, d, u = self(A[0])        # the entry at the opposite position, on the other side of the diagonal
            return opposite(u), opposite(d), opposite(l)
        if op == "eye":
            b = self.lib.boolish(t)
            return (T.FALSE, T.TRUE, T.FALSE) if b else (const(0), const(1), const(0))
        if op == "T" and len(A) == 1:
            l, d, u = self(A[0])
            return (u, d, l)
        if op in ("cov", "corr"):
            return (isym(t), mk("ent", (t,), data="D"), isym(t))
        if op in ELEM1 and len(A) == 1:
            return tuple(self.op(op, x) for x in self(A[0]))
        if op == "clip" and len(A) >= 3 and all(self.scal(a) for a in A[1:]):
            return tuple(mk("clip", (x,) + tuple(A[1:])) for x in self(A[0]))
        if op == "astype":
            l, d, u = self(A[0])
            tob = is_c(A[1], "bool")

            def cast(x):
                c = self.truth(x)
                if tob and c is not None:
                    return const(c)
                return x if (tob and self.isbool(x)) else mk("astype", (x, A[1]))
            return tuple(cast(x) for x in (l, d, u))
        if op in ELEM2 and len(A) == 2:
            a, b = self.bc(A[0], A[1]), self.bc(A[1], A[0])
            if a is None or b is None:
                return self.opaque(t)
            return tuple(self.op(op, x, y) for x, y in zip(a, b))
        if op in ("where", "phi") and len(A) == 3:
            c = self.same(A[0]) if op == "phi" else self.bc(A[0], t)
            a, b = self.bc(A[1], t), self.bc(A[2], t)
            if None in (a, b, c):
                return self.opaque(t)
            out = []
            for x, y, z in zip(c, a, b):
                k = self.truth(x)
                out.append(y if k is True or y is z else z if k is False else mk("where", (x, y, z)))
            return tuple(out)
        if op == "outer" and len(A) == 2:
            vi, vj = [mk("vent", (a,), data="i") for a in A], [mk("vent", (a,), data="j") for a in A]
            vd = [mk("vent", (a,), data="d") for a in A]
            return (T.binop("mul", vi[0], vj[1]), T.binop("mul", vd[0], vd[1]), T.binop("mul", vj[0], vi[1]))
        if op == "diag" and len(A) == 1 and self.nd(A[0]) == 1:
            return (const(0), mk("vent", (A[0],), data="d"), const(0))
        if op == "matmul" and len(A) == 2 and T.transpose(A[0]) is A[1]:
            return (isym(t), mk("ent", (t,), data="D"), isym(t))
        if op == "inv" and len(A) == 1:
            l, d, u = self(A[0])
            return (isym(t), mk("ent", (t,), data="D"), isym(t)) if l is u else self.opaque(t)
        if op in ("triu", "tril") and len(A) >= 1:
            k = A[1] if len(A) > 1 else const(0)
            if not isnum(k):
                return self.opaque(t)
            k = int(cval(k)) * (1 if op == "triu" else -1)
            if k not in (0, 1):
                return self.opaque(t)
            l, d, u = self(A[0])
            z = T.FALSE if self.lib.boolish(A[0]) else const(0)
            if k == 1:
                d = z
            return (z, d, u) if op == "triu" else (l, d, z)
        if op == "squareform" and len(A) >= 1 and self.nd(A[0]) == 1:
            return (mk("vecent", (A[0], const("sq"))), const(0), mk("vecent", (A[0], const("sq"))))
        if op == "store" and len(A) == 3:
            return self.store(t)
        if op == "mu":
            return self.mu(t)
        return self.opaque(t)

    def bc(self, x, other):
        """entries of x broadcast to a square matrix"""
        nd = self.nd(x)
        if x.op == "const" or nd == 0:
            return self.same(x)
        if nd == 1:
            return (mk("vent", (x,), data="j"), mk("vent", (x,), data="d"), mk("vent", (x,), data="i"))
        if nd == 2:
            col = None
            if x.op == "reshape" and len(x.args) == 2 and x.args[1].op == "tuple" and is_c(x.args[1].args[-1], 1):
                col = x.args[0]
            if x.op == "getitem" and x.args[1].op == "tuple" and is_c(x.args[1].args[-1], None):
                col = x.args[0]
            if x.op == "expand":
                return None
            if col is not None and self.nd(col) == 1:
                return (mk("vent", (col,), data="i"), mk("vent", (col,), data="d"), mk("vent", (col,), data="j"))
            if x.op == "T" and x.args[0].op in ("reshape",):
                l, d, u = self.bc(x.args[0], other)
                return (u, d, l)
            return self(x)
        return None

    def store(self, t):
        base, ix, v = t.args
        k = self.index(ix)
        l, d, u = self(base)
        if k is None:
            if ix.op == "tuple" and len(ix.args) == 2:
                a, b = ix.args
                if base.op == "store" and base.args[1].op == "tuple" and len(base.args[1].args) == 2 and \
                        base.args[1].args[0] is b and base.args[1].args[1] is a and base.args[2] is v:
                    l, d, u = self(base.args[0])
                    if l is u:
                        e = mk("ent", (t,), data="S")
                        return (e, d if self.distinct(a, b) else mk("ent", (t,), data="D"), e)
            m = self.maskstore(ix, v, l, d, u)
            return m if m is not None else self.opaque(t)
        if k[0] == "D":
            if self.scal(v):
                return (l, v, u)
            return (l, mk("vecent", (v, ix)), u)
        e = self.vec_at(v, k[0], k[2])
        if k[1] == 0:
            if self.scal(v):
                d = v
            else:
                d = mk("vecent", (v, ix))
        return (l, d, e) if k[0] == "U" else (e, d, u)

    def maskstore(self, ix, v, l, d, u):
        """boolean mask index with a scalar value"""
        if self.nd(ix) == 2 and self.lib.boolish(ix) and self.scal(v):
            m = self(ix)
            out = []
            for c, x in zip(m, (l, d, u)):
                k = self.truth(c)
                out.append(v if k is True or v is x else x if k is False else mk("where", (c, v, x)))
            return tuple(out)
        return None

    def distinct(self, a, b):
        """two loop indices known to differ"""
        for x, y in ((a, b), (b, a)):
            if x.op == "elem" and y.op == "elem" and y.args[0].op == "range" and len(y.args[0].args) >= 2:
                lo = y.args[0].args[0]
                if lo is T.binop("add", x, const(1)):
                    return True
        if all(x.op == "getitem" for x in (a, b)) and a.args[0] is b.args[0]:
            s = a.args[0]
            if s.op == "elem" and s.args[0].op in ("combinations", "permutations2"):
                return True
        if all(x.op == "elem" and x.args[0].op == "getitem" and x.args[0].args[0].op in ("triu_indices", "tril_indices") for x in (a, b)):
            p, q = a.args[0].args[0], b.args[0].args[0]
            if p is q and len(p.args) > 1 and isnum(p.args[1]) and cval(p.args[1]) == (1 if p.op == "triu_indices" else -1) \
                    and a.args[0].args[1] is not b.args[0].args[1]:
                return True
        return False

    def mu(self, t):
        m = T.MU[t.data]
        if m["next"] is None or t in self.seenmu:
            return self.seenmu.get(t) or self.opaque(t)
        il, idg, iu = self(m["init"])
        if il is not iu:
            return self.opaque(t)
        for d0 in (idg, mk("ent", (t,), data="D")):
            hyp = (mk("ent", (t,), data="S"), d0, mk("ent", (t,), data="S"))
            sub = Regions(self.e, self.rg)
            sub.seenmu = {**self.seenmu, t: hyp}
            l, d, u = sub(m["next"])
            if l is u and (d is d0 or d0 is not idg):
                return hyp
        return self.opaque(t)


def leaves(e):
    return [x for x in T.subterms(e, False, stop=lambda y: y.op in ("ent", "vent", "vecent"))
            if x.op in ("ent", "vent", "vecent")]


def turned(ix):
    return ix.op == "slice" and ix.args[0].op == "const" and cval(ix.args[0]) is None and ix.args[1].op == "const" and cval(ix.args[1]) is None and is_c(ix.args[2], -1)


def opposite(e, memo=None):
    """the same entry expression at (n-1-i, n-1-j)"""
    memo = {} if memo is None else memo
    if e not in memo:
        if e.op in ("ent", "vent", "vecent"):
            r = mk("opp", e.args, e.kw, (e.op, e.data))
        elif e.op == "opp":
            r = mk(e.data[0], e.args, e.kw, e.data[1])
        elif e.args:
            r = mk(e.op, [opposite(x, memo) for x in e.args], e.kw, e.data)
        else:
            r = e
        memo[e] = r
    return memo[e]


def symmetric(l, u):
    """True / False / None (cannot tell)"""
    if l is u:
        return True
    ol = [x for x in leaves(l) + leaves(u) if x.op == "ent" and x.data in ("L", "U")]
    ol += [x for t in (l, u) for x in T.subterms(t, False, stop=lambda y: y.op in ("opp", "ent", "vent", "vecent")) if x.op == "opp" and x.data[1] in ("L", "U")]
    if not ol:
        return False
    if (l.op == "const") != (u.op == "const"):
        other = u if l.op == "const" else l
        return None if other.op == "ent" else False
    return None
