"""Unit-of-measurement analysis.

A data matrix has one unknown unit (positive scale) and one unknown offset per column.  The abstract value of a term is

  ZERO                  the constant 0 (compatible with every unit)
  U(exps, shift)        every entry scales with the product of the units raised to `exps`; keys are negative axis
                        numbers (per-axis units) or ('ix', key) (the unit of one particular column); shift says whether
                        the offset of a column still enters.  exps empty and no shift means invariant.
  Var(term)             changes under a change of units or offsets in a way no later step can undo
  None                  unknown
"""
from fractions import Fraction

from . import terms as T
from .terms import cval, isnum


class U:
    __slots__ = ("exps", "shift")

    def __init__(self, exps=(), shift=False):
        self.exps = {k: v for k, v in dict(exps).items() if v != 0}
        self.shift = shift

    def __eq__(self, o):
        return isinstance(o, U) and self.exps == o.exps and self.shift == o.shift

    def __hash__(self):
        return hash((frozenset(self.exps.items()), self.shift))

    @property
    def inv(self):
        return not self.exps and not self.shift

    def __repr__(self):
        return f"U({self.exps},{'shift' if self.shift else ''})"


class Var:
    __slots__ = ("term", "why")

    def __init__(self, term, why):
        self.term, self.why = term, why

    def __repr__(self):
        return f"Var({self.why}: {T.show(self.term, 3)})"


ZERO = "zero"
INV = U()

SAME = {"copy", "asarray", "neg", "abs", "squareform", "clone", "detach", "cpu", "sort", "to", "float32",
        "contiguous", "fromiter", "iter", "list1", "astensor", "tensor", "item", "numpy", "real", "positive", "fabs"}
DROPSHIFT = {"diff", "pdist", "std", "var", "ptp", "cov", "cdist"}
INVFN = {"dim", "size", "ndim", "shape", "range", "arange", "triu_indices", "tril_indices", "diagidx", "dist.ppf", "eye", "lib",
         "nan", "inf", "cpu_count", "indices", "inloop", "dist", "len", "pi", "triu_idx", "func", "slice", "empty"}
RANK = {"rankdata", "argsort", "argmax", "argmin", "lexsort"}
TRANSC = {"log", "exp", "log1p", "expm1", "sin", "cos", "tan", "tanh", "arctanh", "arctan", "arcsin", "arccos", "log2", "log10",
          "floor", "ceil", "sigmoid", "erf", "cdf", "dist.cdf", "dist.sf", "norm.cdf", "rint", "arcsinh", "sign"}
REDUCE = {"sum", "mean", "max", "min", "amax", "amin", "median", "nansum", "quantile", "cumsum", "prod", "trapz", "percentile"}


class Units:
    def __init__(self, lib, sources):
        """sources: {param Term: U}"""
        self.lib, self.src = lib, sources
        self.memo = {}
        self.assume = {}

    def nd(self, t):
        return self.lib.ndim(t)

    def __call__(self, t):
        if t in self.src:
            return self.src[t]
        if t in self.memo:
            return self.memo[t]
        if t.op == "mu":
            return self.mu(t)
        r = self.ev(t)
        if not self.assume:
            self.memo[t] = r
        return r

    def mu(self, t):
        if t in self.assume:
            return self.assume[t]
        m = T.MU[t.data]
        outer = not self.assume
        cur = self(m["init"])
        for _ in range(5):
            self.assume[t] = cur
            nx = self(m["next"]) if m["next"] is not None else None
            j = self.join(t, cur, nx)
            del self.assume[t]
            if j is None or isinstance(j, Var) or j == cur:
                cur = j
                break
            cur = j
        if outer:
            self.memo[t] = cur
        return cur

    def join(self, t, a, b):
        if a is None or b is None:
            return None
        if isinstance(a, Var):
            return a
        if isinstance(b, Var):
            return b
        if a is ZERO:
            return b
        if b is ZERO:
            return a
        if a == b:
            return a
        return Var(t, f"merges values in different units ({a!r} and {b!r})")

    # ---------------------------------------------------------------------------
    def all(self, ts):
        """invariant if all are"""
        for x in ts:
            u = self(x)
            if isinstance(u, Var):
                return u
            if u is None:
                return None
            if u is not ZERO and not u.inv:
                return Var(x, "value in measurement units used where only a pure number is unit-free")
        return INV

    def ev(self, t):
        op = t.op
        if op == "const":
            v = cval(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool) and v == 0 or v is False:
                return ZERO
            return INV
        if op == "param":
            return INV
        if op in INVFN or op.startswith("dist"):
            if op in ("dim", "size", "ndim", "shape", "lib", "func", "triu_indices", "tril_indices", "diagidx", "empty"):
                return INV
            if op.startswith("dist."):
                for u in (self(a) for a in t.args):
                    if isinstance(u, U) and not u.inv:
                        return Var(t, f"{op} of a value in measurement units")
            return self.all(t.args) if t.args else INV
        if op == "full":
            v = self(t.args[1])
            return v
        if op in ("astype", "reshape", "ravel", "flatten", "tile", "view", "squeeze", "expand_dims", "broadcast_to", "repeat"):
            u = self(t.args[0])
            if isinstance(u, U) and any(not isinstance(k, tuple) for k in u.exps) and op not in ("astype",):
                return None
            if isinstance(u, U) and op == "astype" and not u.inv and t.args[1].op == "const" and cval(t.args[1]) in ("int", "bool"):
                return Var(t, "rounds a value in measurement units")
            return u
        if op == "round":
            u = self(t.args[0])
            return Var(t, "rounds a value in measurement units") if isinstance(u, U) and (u.exps or u.shift) else u
        if op in SAME:
            return self(t.args[0]) if t.args else INV
        if op == "array" and len(t.args) == 1:
            if t.args[0].op in ("list", "tuple"):
                return self.seq(t.args[0])
            return self(t.args[0])
        if op in ("list", "tuple", "gen"):
            return self.seq(t)
        if op == "T":
            u = self(t.args[0])
            n = self.nd(t.args[0])
            if isinstance(u, U):
                if n == 1:
                    return u
                sw = {-1: -2, -2: -1}
                return U({sw.get(k, k): v for k, v in u.exps.items()}, u.shift)
            return u
        if op in ("cov", "corr"):
            u = self(t.args[0])
            if isinstance(u, U):
                if set(u.exps) <= {-1} and len(t.args) == 1:
                    e = u.exps.get(-1, 0)
                    return INV if op == "corr" else U({-1: e, -2: e})
                if op == "corr" and all(isinstance(k, tuple) for k in u.exps):
                    return INV
                return None
            return u
        if op == "standardize":
            u = self(t.args[0])
            if isinstance(u, U):
                off = [k for k in ("with_mean", "with_std") if t.kwd(k) is not None]
                if any(t.kwd(k).op != "const" for k in off):
                    return None
                mean, std = ((True if t.kwd(k) is None else bool(cval(t.kwd(k)))) for k in ("with_mean", "with_std"))
                if not set(u.exps) <= {-1}:
                    return None
                return U({} if std else u.exps, u.shift and not mean)
            return u
        if op in RANK:
            u = self(t.args[0])
            if isinstance(u, U):
                if all(isinstance(k, tuple) for k in u.exps):
                    return INV
                ax = t.kwd("axis")
                if ax is not None and T.isnum(ax):
                    n = self.nd(t.args[0])
                    a = cval(ax) if cval(ax) < 0 else (cval(ax) - n if n else None)
                    if a is not None and a not in u.exps:
                        return INV
                return Var(t, "ranks values of different units together")
            return u if u is not ZERO else INV
        if op in ("dctest", "dcor.t_test"):
            us = [self(a) for a in t.args]
            for u in us:
                if u is None or isinstance(u, Var):
                    return u
                if isinstance(u, U) and any(not isinstance(k, tuple) for k in u.exps):
                    return Var(t, "distance correlation over variables of different units")
            return INV
        if op in ("pvalue", "statistic"):
            return self(t.args[0])
        if op == "pmap":
            return self(t.args[0])
        if op in ("elem",):
            u = self(t.args[0])
            if isinstance(u, U):
                n = self.nd(t.args[0])
                if u.inv or all(isinstance(k, tuple) for k in u.exps):
                    return u
                if n and -n in u.exps:
                    e = dict(u.exps)
                    x = e.pop(-n)
                    e[("ix", t)] = x
                    return U(e, u.shift)
                return u
            return u
        if op in ("zip", "map", "enumerate", "many"):
            return self(t.args[0]) if t.args else INV
        if op == "getitem":
            return self.getitem(t)
        if op == "store":
            return self.store(t)
        if op in ("add", "sub"):
            return self.addsub(t, op)
        if op == "mul":
            return self.mul(t, 1)
        if op == "div":
            return self.mul(t, -1)
        if op == "pow":
            u = self(t.args[0])
            e = self(t.args[1])
            if isinstance(u, U) and isnum(t.args[1]):
                k = cval(t.args[1])
                return U({a: v * Fraction(k).limit_denominator(1000) for a, v in u.exps.items()}, u.shift)
            if isinstance(u, U) and u.inv and isinstance(e, U) and e.inv:
                return INV
            if isinstance(u, U) and isinstance(e, U):
                return Var(t, "power of a value in measurement units")
            return u
        if op == "sqrt":
            u = self(t.args[0])
            return U({a: v / 2 for a, v in u.exps.items()}, u.shift) if isinstance(u, U) else u
        if op in ("maximum", "minimum", "clip"):
            us = [self(a) for a in t.args]
            return self.same(t, us)
        if op in ("lt", "le", "eq", "ne", "isclose"):
            us = [self(a) for a in t.args]
            s = self.same(t, us)
            if isinstance(s, U):
                return INV
            return INV if s is ZERO else s
        if op in ("and", "or", "xor", "not", "band", "bor", "nonzero", "where1", "any", "all", "triu", "tril", "flatnonzero",
                  "argwhere", "isnan", "isfinite"):
            us = [self(a) for a in t.args]
            for u in us:
                if u is None or isinstance(u, Var):
                    return u
            if op in ("any", "all", "not", "band", "bor"):
                return INV
            return us[0] if us[0] is not ZERO else INV
        if op == "phi":
            c = self(t.args[0])
            if isinstance(c, Var) or c is None:
                c = None if c is None else c
            j = self.join(t, self(t.args[1]), self(t.args[2]))
            if isinstance(c, Var) and t.args[1] is not t.args[2]:
                return c
            return j
        if op == "where" and len(t.args) == 3:
            c = self(t.args[0])
            if c is None or isinstance(c, Var):
                return c
            return self.join(t, self(t.args[1]), self(t.args[2]))
        if op in DROPSHIFT or op in REDUCE:
            return self.reduce(t, op)
        if op == "outer":
            a, b = self(t.args[0]), self(t.args[1])
            if isinstance(a, U) and isinstance(b, U):
                e = {}
                for k, v in a.exps.items():
                    e[-2 if k == -1 else k] = v
                for k, v in b.exps.items():
                    e[k] = e.get(k, 0) + v
                return U(e, a.shift or b.shift)
            return a if isinstance(a, Var) else b if isinstance(b, Var) else (ZERO if ZERO in (a, b) else None)
        if op == "matmul":
            a, b = self(t.args[0]), self(t.args[1])
            for u in (a, b):
                if u is None or isinstance(u, Var):
                    return u
            if ZERO in (a, b):
                return ZERO
            na, nb = self.nd(t.args[0]), self.nd(t.args[1])
            inner_b = -1 if nb == 1 else -2
            if a.exps.get(-1, 0) + b.exps.get(inner_b, 0) != 0:
                return Var(t, "sums products of different units")
            e = {}
            for k, v in a.exps.items():
                if isinstance(k, tuple):
                    e[k] = e.get(k, 0) + v
                elif k == -2:
                    kk = -1 if nb == 1 else -2
                    e[kk] = e.get(kk, 0) + v
            for k, v in b.exps.items():
                if isinstance(k, tuple):
                    e[k] = e.get(k, 0) + v
                elif nb != 1 and k == -1:
                    e[-1] = e.get(-1, 0) + v
            return U(e, a.shift or b.shift)
        if op in ("diag", "diagonal"):
            u = self(t.args[0])
            if isinstance(u, U):
                n = self.nd(t.args[0])
                if n == 2:
                    e = {k: v for k, v in u.exps.items() if isinstance(k, tuple)}
                    s = u.exps.get(-1, 0) + u.exps.get(-2, 0)
                    if s:
                        e[-1] = s
                    return U(e, u.shift)
                return u
            return u
        if op in TRANSC:
            us = [self(a) for a in t.args]
            for u in us:
                if u is None or isinstance(u, Var):
                    return u
                if isinstance(u, U) and not u.inv:
                    if op == "sign" and not u.shift:
                        continue
                    return Var(t, f"{op} of a value in measurement units")
            return INV
        if op == "split":
            return self(t.args[0])
        if op in ("vstack", "hstack", "concat", "stack"):
            return self.seq(t.args[0] if len(t.args) == 1 else t)
        if op.startswith("call:") or op in ("opaque", "unset", "rec"):
            r = self.all([a for a in t.args])
            return INV if isinstance(r, U) and t.args else None
        r = self.all(list(T.children(t)))
        return r if isinstance(r, U) and t.args else (None if not isinstance(r, U) else None)

    def seq(self, t):
        us = [self(a) for a in t.args]
        if not us:
            return ZERO
        r = us[0]
        for u in us[1:]:
            r = self.join(t, r, u)
            if r is None:
                return None
        if isinstance(r, Var) and not any(isinstance(u, Var) for u in us):
            return None
        return r

    def same(self, t, us):
        cur = ZERO
        for u in us:
            if u is None or isinstance(u, Var):
                return u
            if u is ZERO:
                continue
            if cur is ZERO:
                cur = u
            elif u.exps != cur.exps:
                return Var(t, "compares or clips values of different units")
            elif u.shift != cur.shift:
                return Var(t, "compares an offset-dependent value with an offset-free one")
        if isinstance(cur, U) and cur.shift and any(u is ZERO for u in us):
            return Var(t, "compares an offset-dependent value with a constant")
        return cur

    def addsub(self, t, op):
        a, b = self(t.args[0]), self(t.args[1])
        for u in (a, b):
            if u is None or isinstance(u, Var):
                return u
        if a is ZERO:
            return b
        if b is ZERO:
            return a
        if a.exps != b.exps:
            return Var(t, "adds values of different units")
        if a.shift and b.shift:
            return U(a.exps, False) if op == "sub" else U(a.exps, True)
        return U(a.exps, a.shift or b.shift)

    def mul(self, t, sg):
        a, b = self(t.args[0]), self(t.args[1])
        for u in (a, b):
            if u is None or isinstance(u, Var):
                return u
        if a is ZERO:
            return ZERO
        if b is ZERO:
            return ZERO if sg > 0 else None
        e = dict(a.exps)
        for k, v in b.exps.items():
            e[k] = e.get(k, 0) + sg * v
        return U(e, a.shift or b.shift)

    def reduce(self, t, op):
        u = self(t.args[0])
        if not isinstance(u, U):
            return u
        ax = t.kwd("axis")
        exps = dict(u.exps)
        shift = u.shift and op not in DROPSHIFT
        k = 2 if op == "var" else 1
        axes = [k0 for k0 in exps if not isinstance(k0, tuple)]
        if op == "prod":
            return INV if u.inv else None
        if op in ("pdist", "cdist"):
            return U(exps, False) if not axes else None
        if ax is None:
            if op == "diff":
                n = self.nd(t.args[0])
                if axes and n != 1 and -1 in axes:
                    return Var(t, "differences over variables of different units")
                return U(exps, False)
            if axes and op != "cumsum":
                return Var(t, f"{op} over variables of different units")
            return U({a: v * k for a, v in exps.items()}, shift)
        if not T.isnum(ax):
            return None
        n = self.nd(t.args[0])
        a = cval(ax)
        if a >= 0:
            if not n:
                return None if axes else U({b: v * k for b, v in exps.items()}, shift)
            a = a - n
        if a in exps:
            return Var(t, f"{op} over variables of different units")
        if op in ("cumsum", "diff"):
            return U(exps, shift)
        keep = t.kwd("keepdims")
        out = {}
        for b, v in exps.items():
            if not isinstance(b, tuple) and b < a and keep is None:
                b = b + 1
            out[b] = v * k
        return U(out, shift)

    def idxlist(self, idx):
        return list(idx.args) if idx.op == "tuple" else [idx]

    def is_scalar_idx(self, i):
        if isnum(i):
            return True
        if i.op in ("slice", "tuple", "list"):
            return False
        if i.op == "const":
            return False
        n = self.nd(i)
        if n == 0:
            return True
        if n is not None:
            return False
        return True if i.op in ("elem",) and i.args[0].op in ("range", "arange") else None

    def getitem(self, t):
        base, idx = t.args
        u = self(base)
        if base.op in ("tuple", "list") and isnum(idx):
            pass
        if not isinstance(u, U):
            return u
        ixs = self.idxlist(idx)
        for i in ixs:
            w = self(i) if i.op not in ("slice", "tuple", "list") else INV
            if isinstance(w, Var):
                return w
        if u.inv:
            return u
        n = self.nd(base)
        if n is None:
            axes = [k for k in u.exps if not isinstance(k, tuple)]
            if not axes:
                return u
            n = len(ixs) if len(ixs) > 1 else None
            if n is None:
                return None
        if len(ixs) > n:
            return None
        # which axes are consumed
        out, removed = {k: v for k, v in u.exps.items() if isinstance(k, tuple)}, 0
        keepaxes = []
        for pos in range(n):
            ax = pos - n
            i = ixs[pos] if pos < len(ixs) else None
            if i is None or i.op == "slice":
                keepaxes.append(ax)
                continue
            s = self.is_scalar_idx(i)
            if s is None:
                if ax in u.exps:
                    return None
                keepaxes.append(ax)
                continue
            if s:
                if ax in u.exps:
                    key = ("ix", T.mk("col", (base, i)) if base.op != "param" else i)
                    out[key] = out.get(key, 0) + u.exps[ax]
                continue
            if self.nd(i) == n and len(ixs) == 1:
                # boolean mask over the whole array
                return u if not any(not isinstance(k, tuple) for k in u.exps) else Var(t, "mixes entries of different units")
            keepaxes.append(ax)
        m = len(keepaxes)
        for j, ax in enumerate(keepaxes):
            if ax in u.exps:
                out[j - m] = out.get(j - m, 0) + u.exps[ax]
        return U(out, u.shift)

    def store(self, t):
        base, idx, val = t.args[:3]
        b, v = self(base), self(val)
        for u in (b, v):
            if u is None or isinstance(u, Var):
                return u
        if v is ZERO:
            return b if b is not ZERO else ZERO
        if isinstance(v, U) and v.inv:
            return INV if b is ZERO or b.inv else Var(t, "stores a pure number among values in measurement units")
        # move the unit of a single column to the axis it is stored along
        n = self.nd(base)
        ixs = self.idxlist(idx)
        e = {}
        for k, x in v.exps.items():
            if isinstance(k, tuple):
                pos = [p for p, i in enumerate(ixs) if i is k[1]]
                if pos and n:
                    e[pos[0] - n] = e.get(pos[0] - n, 0) + x
                else:
                    e[k] = e.get(k, 0) + x
            else:
                full = [p for p in range(n or 0) if p >= len(ixs) or ixs[p].op == "slice"]
                if n and len(full) >= -k:
                    e[full[k] - n] = e.get(full[k] - n, 0) + x
                else:
                    return None
        w = U(e, v.shift)
        if b is ZERO:
            return w
        return w if w == b else Var(t, "stores a value of another unit")
