"""Semantics of the libraries the package uses (numpy, torch, scipy, stdlib) as term constructors.

Equivalent spellings are mapped to the same operator.  Anything not modelled becomes an opaque
`call:<name>` / `mcall` term: rules treat it as undecided, never as a violation.
"""
from __future__ import annotations

import ast

from . import terms as T
from .terms import mk, const, phi, lnot, land, lor, NONE, TRUE, FALSE
from .values import *
from . import libfuncs, libmethods

ELEMWISE1 = {"detach", "neg", "abs", "exp", "log", "sqrt", "sign", "round", "not", "invert", "sigmoid", "relu", "tanh",
             "log1p", "expm1", "isnan", "isfinite", "floor", "ceil", "log2", "log10", "softplus"}
ELEMWISE2 = {"add", "sub", "mul", "div", "floordiv", "mod", "pow", "lt", "le", "eq", "ne", "and", "or", "xor",
             "maximum", "minimum"}
BOOLOPS = {"lt", "le", "eq", "ne", "not", "band", "bor", "is", "isnot", "in", "notin", "any", "all", "isnan",
           "isfinite", "hasattr", "isinstance", "nonempty", "allclose", "array_equal"}


class LibModel:
    def __init__(self, eng):
        self.e = eng
        self.sorted_info = {}
        self.logical, self.bitwise = set(), set()

    # ------------------------------------------------------------------ small helpers
    def t(self, v):
        return self.e.term(v)

    def fresh(self, term, alias=()):
        return self.e.val(term) if not alias else self.e.ref(term, None, alias)

    def newref(self, term, alias=()):
        return self.e.ref(term, None, alias)

    # ------------------------------------------------------------------ kinds of terms
    def boolish(self, t, d=0):
        if d > 12:
            return False
        if t.op == "const":
            return isinstance(T.cval(t), bool)
        if t.op in BOOLOPS:
            return True
        if t.op in ("and", "or", "xor", "maximum", "minimum"):
            return all(self.boolish(a, d + 1) for a in t.args)
        if t.op == "matmul":
            return all(self.boolish(a, d + 1) for a in t.args)
        if t.op == "astype":
            return T.is_c(t.args[1], "bool")
        if t.op in ("full", "empty", "array", "eye"):
            dt = t.kwd("dtype")
            if dt is not None:
                return T.is_c(dt, "bool")
            if t.op == "full" and len(t.args) > 1 and not t.kwd("like"):
                return t.args[1].op == "const" and isinstance(T.cval(t.args[1]), bool)
            return False
        if t.op in ("store", "getitem", "T", "triu", "tril", "reshape", "invert", "diag", "diagonal", "tile",
                    "flip", "sort", "copyof", "elem", "ravel", "delete", "roll", "swapaxes", "squeeze", "expand"):
            return bool(t.args) and self.boolish(t.args[0], d + 1)
        if t.op in ("vstack", "hstack", "concat", "stack"):
            ps = list(t.args)
            if len(ps) == 1 and ps[0].op in ("tuple", "list"):
                ps = list(ps[0].args)
            return bool(ps) and all(self.boolish(a, d + 1) for a in ps)
        if t.op == "phi":
            return self.boolish(t.args[1], d + 1) and self.boolish(t.args[2], d + 1)
        if t.op == "where":
            return self.boolish(t.args[1], d + 1) and self.boolish(t.args[2], d + 1)
        if t.op == "param" or t.op == "attr":
            return self.e.kindfacts.get(t) in ("boolarray",)
        if t.op == "mu":
            i = T.mu_info(t)["init"]
            return d < 3 and self.boolish(i, d + 4)
        if t.op == "draw":
            return t.data[0] in ("permutation", "permuted", "choice") and len(t.args) > 1 and self.boolish(t.args[1], d + 1)
        return False

    ARR = {"full", "empty", "eye", "array", "arange", "matmul", "T", "inv", "store", "cov", "corr", "astype", "vstack",
           "hstack", "concat", "stack", "reshape", "ravel", "triu", "tril", "diag", "tile", "outer", "where",
           "argsort", "sort", "cumsum", "diff", "rankdata", "flatnonzero", "argwhere", "blockdiag", "kron",
           "squareform", "pdist", "linspace", "fromiter", "standardize", "where1", "nonzero", "diagonal",
           "triu_mask", "cumprod", "unique", "delete", "ndexp", "expand"}

    def ndim_positive(self, t, d=0):
        """t certainly denotes an array with at least one axis (so that += works in place)"""
        if d > 10:
            return False
        if t.op in self.ARR:
            return True
        if t.op in ELEMWISE1:
            return self.ndim_positive(t.args[0], d + 1)
        if t.op in ELEMWISE2:
            return any(self.ndim_positive(a, d + 1) for a in t.args)
        if t.op in ("sum", "mean", "any", "all", "max", "min", "prod", "std", "var", "median", "quantile"):
            nd = self.ndim(t.args[0])
            ax = t.kwd("axis")
            return ax is not None and nd is not None and nd >= 2
        if t.op == "getitem":
            nd = self.ndim(t)
            return nd is not None and nd >= 1
        if t.op == "draw":
            m = t.data[0]
            if m in ("multivariate_normal", "permuted"):
                return True
            if m in ("permutation",):
                return True
            nd = self.ndim(t)
            return nd is not None and nd >= 1
        if t.op == "phi":
            return self.ndim_positive(t.args[1], d + 1) and self.ndim_positive(t.args[2], d + 1)
        if t.op == "mu":
            return self.ndim_positive(T.mu_info(t)["init"], d + 3)
        if t.op in ("param",):
            return self.e.kindfacts.get(t) in ("ndarray", "boolarray", "tensor")
        if t.op == "optx":
            return True
        return False

    def ndim(self, t, d=0):
        """number of axes, or None"""
        if d > 12:
            return None
        if t.op == "const":
            return 0 if isinstance(T.cval(t), (int, float, bool)) else None
        if t.op in ("full", "empty"):
            s = t.args[0]
            if s.op == "tuple":
                return len(s.args)
            if s.op == "shape":
                return self.ndim(s.args[0], d + 1)
            return 1 if T.isnum(s) or s.op in ("dim", "size", "sum", "add", "sub", "mul", "floordiv") else None
        if t.op == "ofshape" and len(t.args) > 1:
            s = t.args[1]
            return len(s.args) if s.op == "tuple" else self.ndim(s.args[0], d + 1) if s.op == "shape" else None
        if t.op.startswith("dist."):
            ns = [self.ndim(x, d + 1) for x in t.args[1:]] + [self.ndim(x, d + 1) for x in (t.args[0].args if t.args[0].op == "dist" else ())]
            return None if None in ns else max(ns, default=None)
        if t.op in ("eye", "cov", "corr", "outer", "blockdiag", "triu", "tril", "standardize", "inv", "argwhere"):
            return 2
        if t.op == "squareform":
            if t.args[0].op == "pdist":
                return 2
            return {1: 2, 2: 1}.get(self.ndim(t.args[0], d + 1))
        if t.op == "pdist":
            return 1
        if t.op == "elem":
            n = self.ndim(t.args[0], d + 1)
            if n:
                return n - 1
            return 0 if self.scalarint(t) else None
        if t.op in ("arange", "flatnonzero", "fromiter", "linspace", "ravel", "optx", "cumsum", "argsort"):
            if t.op in ("cumsum", "argsort"):
                return self.ndim(t.args[0], d + 1)
            return 1
        if t.op in ("store", "astype", "sort", "permuted", "delete", "roll"):
            return self.ndim(t.args[0], d + 1)
        if t.op in ELEMWISE1 or t.op == "T":
            return self.ndim(t.args[0], d + 1)
        if t.op in ELEMWISE2:
            a, b = self.ndim(t.args[0], d + 1), self.ndim(t.args[1], d + 1)
            if a is None or b is None:
                return None
            return max(a, b)
        if t.op == "matmul":
            a, b = self.ndim(t.args[0], d + 1), self.ndim(t.args[1], d + 1)
            if a == 2 and b == 2:
                return 2
            if a and b and {a, b} == {1, 2}:
                return 1
            return 0 if a == 1 and b == 1 else None
        if t.op in ("sum", "mean", "any", "all", "max", "min", "prod", "std", "var", "argmax", "argmin", "norm"):
            if t.kwd("axis") is None:
                return 0
            n = self.ndim(t.args[0], d + 1)
            return n if t.kwd("keepdims") is TRUE else (None if n is None else n - 1)
        if t.op == "reshape":
            s = t.args[1]
            return len(s.args) if s.op == "tuple" else (1 if T.isnum(s) else None)
        if t.op == "getitem":
            n = self.ndim(t.args[0], d + 1)
            if n is None:
                return None
            ix = t.args[1]
            parts = ix.args if ix.op == "tuple" else (ix,)
            for p in parts:
                if p.op == "slice":
                    continue
                if p is NONE:
                    n += 1
                    continue
                if p.op in ("tuple", "list"):
                    continue
                if self.scalarint(p):
                    n -= 1
                elif self.boolish(p):
                    k = self.ndim(p, d + 1)
                    if k is None:
                        return None
                    n -= k - 1
                else:
                    k = self.ndim(p, d + 1)
                    if k is None:
                        return None
                    n += k - 1
            return n
        if t.op == "draw":
            m = t.data[0]
            if m == "permutation":
                n = self.ndim(t.args[1], d + 1) if len(t.args) > 1 else None
                return 1 if n == 0 else n
            if m == "permuted":
                return self.ndim(t.args[1], d + 1)
            s = t.kwd("size")
            if m == "multivariate_normal":
                return 1 if s is None or s is NONE else (2 if self.scalarint(s) else None)
            if s is None or s is NONE:
                return 0
            if s.op == "tuple":
                return len(s.args)
            return 1 if s.op in ("param", "const", "dim", "size", "sum") else None
        if t.op == "phi":
            a, b = self.ndim(t.args[1], d + 1), self.ndim(t.args[2], d + 1)
            return a if a == b else None
        if t.op == "mu":
            return self.ndim(T.mu_info(t)["init"], d + 4)
        if t.op in ("param", "attr"):
            k = self.e.kindfacts.get(t)
            if k == "boolarray":
                return 2
            return self.ndims.get(t)
        if t.op in ("dim", "size", "ndim", "len"):
            return 0
        if t.op in ("vstack",):
            return 2
        if t.op == "diag":
            n = self.ndim(t.args[0], d + 1)
            return {1: 2, 2: 1}.get(n)
        if t.op == "diagonal":
            return 1
        return None

    ndims: dict = {}

    def intvec(self, t):
        """t is certainly a vector of integers"""
        if t.op in ("arange", "flatnonzero", "argsort"):
            return t.op != "argsort" or self.ndim(t.args[0]) == 1
        if t.op == "fromiter":
            return True
        if t.op == "delete":
            return self.intvec(t.args[0])
        if t.op == "getitem":
            b, ix = t.args
            if b.op in ("where1", "nonzero", "triu_indices", "tril_indices"):
                return self.scalarint(ix)
            return self.intvec(b) and (ix.op == "slice" or self.intvec(ix))
        return False

    def scalarint(self, t):
        if t.op == "const":
            return isinstance(T.cval(t), int) and not isinstance(T.cval(t), bool)
        if t.op in ("dim", "size", "len", "ndim", "count"):
            return True
        if t.op == "sum":
            return t.kwd("axis") is None
        if t.op in ("argmax", "argmin"):
            return t.kwd("axis") is None
        if t.op == "elem":
            return t.args[0].op == "range" or self.intvec(t.args[0])
        if t.op == "getitem":
            b, ix = t.args
            if b.op == "elem" and b.args[0].op == "argwhere":
                return self.scalarint(ix)
            return self.intvec(b) and self.scalarint(ix)
        if t.op in ("add", "sub", "mul", "floordiv", "mod"):
            return all(self.scalarint(a) for a in t.args)
        if t.op in ("neg", "toint"):
            return t.op == "toint" or self.scalarint(t.args[0])
        if t.op == "mu":
            return self.scalarint(T.mu_info(t)["init"])
        if t.op == "phi":
            return self.scalarint(t.args[1]) and self.scalarint(t.args[2])
        if t.op == "param":
            return self.e.kindfacts.get(t) == "int"
        return False

    # ------------------------------------------------------------------ dims
    def shapeof(self, t):
        nd = self.ndim(t)
        if t.op in ("full", "empty") and t.args[0].op == "tuple":
            return t.args[0]
        if nd is not None and 0 < nd <= 4:
            return T.tup([self.dim(t, i) for i in range(nd)])
        if t.op in ("store", "astype"):
            return self.shapeof(t.args[0])
        return mk("shape", (t,))

    def dim(self, t, i, depth=0):
        d = self.dim
        if depth > 12:
            return mk("dim", (t,), data=i)
        if i < 0:
            nd = self.ndim(t)
            if nd is None:
                return mk("dim", (t,), data=i)
            i += nd
        if t.op in ("full", "empty"):
            s = t.args[0]
            if s.op == "tuple" and i < len(s.args):
                return s.args[i]
            if s.op == "shape":
                return d(s.args[0], i, depth + 1)
            if i == 0 and s.op != "phi" and self.ndim(t) == 1:
                return s
        if t.op in ("store", "astype", "sort", "triu", "tril") or t.op in ELEMWISE1:
            return d(t.args[0], i, depth + 1)
        if t.op == "array" and i == 0 and len(t.args) == 1 and t.args[0].op == "list" and not any(a.op in ("many", "star") for a in t.args[0].args):
            return const(len(t.args[0].args))
        if t.op == "T" and self.ndim(t.args[0]) in (None, 2):
            return d(t.args[0], 1 - i, depth + 1)
        if t.op == "matmul" and self.ndim(t) in (None, 2):
            return d(t.args[0], 0, depth + 1) if i == 0 else d(t.args[1], 1, depth + 1)
        if t.op == "reshape" and t.args[1].op == "tuple" and i < len(t.args[1].args):
            s = t.args[1].args[i]
            if not T.is_c(s, -1):
                return s
        if t.op == "eye":
            return t.args[min(i, len(t.args) - 1)]
        if t.op in ("cov", "corr"):
            return d(t.args[0], 1, depth + 1)
        if t.op == "standardize":
            return d(t.args[0], i, depth + 1)
        if t.op in ("add", "sub", "mul", "div", "lt", "le", "eq", "ne", "and", "or", "xor"):
            n0, n1 = self.ndim(t.args[0]), self.ndim(t.args[1])
            if n1 == 0:
                return d(t.args[0], i, depth + 1)
            if n0 == 0:
                return d(t.args[1], i, depth + 1)
        if t.op == "getitem":
            x, ix = t.args
            parts = list(ix.args) if ix.op == "tuple" else [ix]
            if all(p.op == "slice" or self.scalarint(p) for p in parts):
                ax = 0
                out = []
                for p in parts:
                    if p.op == "slice":
                        out.append((ax, p))
                    ax += 1
                if i < len(out):
                    a, s = out[i]
                    lo, hi, st = s.args
                    if st is NONE or T.is_c(st, 1):
                        full = d(x, a, depth + 1)
                        if hi is NONE and lo is NONE:
                            return full
                        if hi is NONE and not (T.isnum(lo) and T.cval(lo) < 0):
                            return T.binop("sub", full, lo)
                        if lo is NONE and not (T.isnum(hi) and T.cval(hi) < 0):
                            return hi
                        if not any(T.isnum(z) and T.cval(z) < 0 for z in (lo, hi)):
                            return T.binop("sub", hi, lo)
                else:
                    return d(x, i - len(out) + len(parts), depth + 1)
        if t.op == "draw" and t.data[0] in ("permutation", "permuted") and len(t.args) > 1:
            return d(t.args[1], i, depth + 1)
        if t.op == "draw":
            s = t.kwd("size")
            if s is not None:
                if s.op == "tuple" and i < len(s.args):
                    return s.args[i]
                if i == 0 and s.op != "tuple":
                    return s
                if i == 1 and t.data[0] == "multivariate_normal" and len(t.args) > 1:
                    return d(t.args[1], 0, depth + 1)
        if t.op == "phi":
            a, b = d(t.args[1], i, depth + 1), d(t.args[2], i, depth + 1)
            if a is b:
                return a
        return mk("dim", (t,), data=i)

    def size(self, t):
        if t.op in ("store", "astype", "reshape", "ravel", "T"):
            return self.size(t.args[0])
        if t.op == "array" and t.args[0].op == "list":
            if not t.args[0].args:
                return const(0)
        if t.op in ("full",):
            s = t.args[0]
            if s.op == "tuple" and len(s.args) == 1:
                return s.args[0]
        return mk("size", (t,))

    # ------------------------------------------------------------------ views
    def viewterm(self, bt, desc):
        if desc[0] == "detach":
            return mk("detach", (bt,))
        if desc[0] == "same":
            return bt
        if desc[0] == "T":
            return T.transpose(bt)
        if desc[0] == "reshape":
            return mk("reshape", (bt.args[0] if bt.op in ("ravel", "reshape") else bt, desc[1]))
        return self.getitem_term(bt, desc[1])

    def viewidx(self, desc):
        return desc[1] if desc[0] == "idx" else mk("slice", (NONE, NONE, NONE))

    def viewstore(self, old, desc, new):
        if desc[0] == "same":
            return new
        if desc[0] == "detach":
            return new.args[0] if new.op == "detach" else new
        if desc[0] == "T":
            return T.transpose(new)
        if desc[0] == "reshape":
            return mk("reshape", (new, T.tup([self.dim(old, 0)])))
        return self.store_term(old, desc[1], new)

    # ------------------------------------------------------------------ indexing on terms
    def normidx(self, ix):
        if ix.op == "slice":
            lo, hi, st = ix.args
            if T.isnum(lo) and T.cval(lo) == 0 and st is NONE:
                lo = NONE
            if T.is_c(st, 1):
                st = NONE
            return mk("slice", (lo, hi, st))
        if ix.op == "tuple" or ix.op == "list":
            if ix.op == "tuple":
                parts = [self.normidx(p) for p in ix.args]
                while len(parts) > 1 and parts[-1].op == "slice" and all(a is NONE for a in parts[-1].args):
                    parts.pop()
                while parts and T.is_c_ellipsis(parts[-1]) if hasattr(T, "is_c_ellipsis") else False:
                    parts.pop()
                if len(parts) == 1:
                    return parts[0]
                return T.tup(parts)
        if ix.op == "where1" or ix.op == "nonzero":
            return ix.args[0] if self.boolish(ix.args[0]) else ix
        if ix.op == "flatnonzero" and self.boolish(ix.args[0]):
            return ix.args[0]
        if ix.op == "astype" and T.is_c(ix.args[1], "bool") and self.boolish(ix.args[0]):
            return ix.args[0]
        return ix

    def fullslice(self, ix):
        return ix.op == "slice" and all(a is NONE for a in ix.args)

    def getitem_term(self, x, ix):
        ix = self.normidx(ix)
        if x.op in ("tuple", "list") and ix.op == "const" and isinstance(T.cval(ix), int):
            i = T.cval(ix)
            if not any(a.op == "many" for a in x.args) and -len(x.args) <= i < len(x.args):
                return x.args[i]
            if 0 <= i < len(x.args) and all(a.op != "many" for a in x.args[:i + 1]):
                return x.args[i]
        if x.op == "shape" and ix.op == "const":
            return self.dim(x.args[0], T.cval(ix))
        if self.fullslice(ix) and x.op not in ("tuple", "list"):
            return x
        if x.op == "phi" and ix.op == "const":
            a, b = self.getitem_term(x.args[1], ix), self.getitem_term(x.args[2], ix)
            if not (a.op == "getitem" and b.op == "getitem"):
                return phi(x.args[0], a, b)
        if x.op == "store":
            if x.args[1] is ix:
                v = x.args[2]
                if v.op not in ("const",):
                    return v
        if x.op == "full" and ix.op == "slice" and len(x.args) == 2 and False:
            return x
        # x[a][:, b] -> x[a, b] for slices
        if x.op == "getitem" and ix.op == "tuple" and x.args[1].op == "slice" and len(ix.args) == 2 \
                and self.fullslice(ix.args[0]):
            return self.getitem_term(x.args[0], T.tup([x.args[1], ix.args[1]]))
        if x.op == "getitem" and ix.op == "slice" and x.args[1].op == "slice":
            a, b = x.args[1].args, ix.args
            if a[1] is NONE and a[2] is NONE and b[2] is NONE and b[1] is NONE and a[0] is not NONE and b[0] is not NONE:
                return self.getitem_term(x.args[0], mk("slice", (T.binop("add", a[0], b[0]), NONE, NONE)))
        return mk("getitem", (x, ix))

    def store_term(self, x, ix, v):
        ix = self.normidx(ix)
        # store into x[a][:, b] handled by caller; canonical order not attempted
        if self.fullslice(ix) and self.samekind(x, v):
            return v
        if x.op == "store" and x.args[1] is ix:
            x = x.args[0]
        return mk("store", (x, ix, v))

    def samekind(self, x, v):
        return False

    # ------------------------------------------------------------------ subscript on values
    def subscript(self, v, idx):
        e = self.e
        if isinstance(v, PhiV):
            v = e.dephi(v)
        if isinstance(v, PhiV):
            return e.distribute(v, lambda x: self.subscript(x, idx))
        if isinstance(idx, PhiV):
            idx = e.dephi(idx)
        ci = idx.v if isinstance(idx, ConstV) else None
        if isinstance(v, ObjV):
            rec = e.st.heap[v.cid]
            if rec.cls.is_namedtuple():
                items = [rec.fields.get(n) for n in rec.cls.ann]
                v = TupV([x for x in items if x is not None])
            else:
                a, _ = rec.cls.lookup("__getitem__")
                if a is not None:
                    return e.callv(BoundV(a, v), [idx], {})
                return self.newref(mk("getitem", (self.t(v), self.t(idx))))
        if isinstance(v, Ref) and isinstance(idx, SliceV) and all(a.op == "const" for a in (idx.lo, idx.hi, idx.st)) and self.t(v).op in ("triu_indices", "tril_indices"):
            v = TupV(e.known_items(v))          # a pair of index arrays
        if isinstance(v, TupV):
            if isinstance(ci, int) and not isinstance(ci, bool):
                if -len(v.items) <= ci < len(v.items):
                    return v.items[ci]
                e.event("index-range", have=len(v.items), idx=ci)
                return self.newref(mk("opaque", data=f"oob{e.uid()}"))
            if isinstance(idx, SliceV) and all(a.op == "const" for a in (idx.lo, idx.hi, idx.st)):
                return TupV(v.items[slice(T.cval(idx.lo), T.cval(idx.hi), T.cval(idx.st))])
            return self.anyof(v.items, mk("getitem", (self.t(v), self.t(idx))))
        if isinstance(v, ListV):
            rec = e.st.heap[v.cid]
            plain = all(not c for _, c in rec.items)
            if isinstance(ci, int):
                if plain and -len(rec.items) <= ci < len(rec.items):
                    return rec.items[ci][0]
                n = 0
                while n < len(rec.items) and not rec.items[n][1]:
                    n += 1
                if 0 <= ci < n:
                    return rec.items[ci][0]
                m = 0
                while m < len(rec.items) and not rec.items[-1 - m][1]:
                    m += 1
                if ci < 0 and -ci <= m:
                    return rec.items[ci][0]
            if isinstance(idx, SliceV) and plain and all(a.op == "const" for a in (idx.lo, idx.hi, idx.st)):
                return e.newlist([x for x, _ in rec.items][slice(T.cval(idx.lo), T.cval(idx.hi), T.cval(idx.st))], rec.kind)
            if isinstance(idx, SliceV):
                if all(T.is_const(a) and T.cval(a) is None for a in (idx.lo, idx.hi, idx.st)):
                    return ListV(e.cell(LObj(list(rec.items), rec.kind)))
                tag = f"cut:{self.t(idx).uid}"
                e.filters[tag] = self.t(idx)
                return ListV(e.cell(LObj([(x, c | {"maybe", tag}) for x, c in rec.items], rec.kind)))
            if not rec.items:
                return self.newref(mk("getitem", (self.t(v), self.t(idx))))
            return self.anyof([x for x, _ in rec.items], mk("getitem", (self.t(v), self.t(idx))))
        if isinstance(v, DictV):
            return self.dictget(v, idx)
        if isinstance(v, LibV) and v.name in ("numpy.s_", "numpy.index_exp"):
            return idx if v.name == "numpy.s_" or isinstance(idx, TupV) else TupV([idx])
        if isinstance(v, LibV) and v.name in ("numpy.r_", "numpy.c_"):
            items = list(idx.items) if isinstance(idx, TupV) else [idx]
            if all(isinstance(x, (Ref, ListV, TupV)) and not self.scalarint(self.t(x)) for x in items):
                return self.call("numpy.concatenate" if v.name == "numpy.r_" else "numpy.column_stack", [TupV(items)], {})
            if len(items) == 1 and v.name == "numpy.r_" and isinstance(items[0], SliceV) and (T.cval(items[0].st) is None or type(T.cval(items[0].st)) is int if T.is_const(items[0].st) else True):
                lo, hi, st = items[0].lo, items[0].hi, items[0].st
                return self.newref(mk("arange", (hi,) if lo is NONE and st is NONE else (T.const(0) if lo is NONE else lo, hi) if st is NONE else (T.const(0) if lo is NONE else lo, hi, st)))
            return self.newref(mk(f"call:{v.name}", tuple(self.t(x) for x in items)))
        if isinstance(v, ConstV):
            if isinstance(v.v, (str, tuple)) and isinstance(ci, int):
                try:
                    return ConstV(v.v[ci])
                except Exception:
                    pass
            if isinstance(v.v, (str, tuple)) and isinstance(idx, SliceV) and all(a.op == "const" for a in (idx.lo, idx.hi, idx.st)):
                return ConstV(v.v[slice(T.cval(idx.lo), T.cval(idx.hi), T.cval(idx.st))])
            return self.newref(mk("getitem", (self.t(v), self.t(idx))))
        if isinstance(v, (LibV, ClsV)):
            return v
        if isinstance(v, IterV):
            return self.newref(mk("getitem", (self.t(v), self.t(idx))))
        if isinstance(v, LibM):
            return self.newref(mk("getitem", (self.t(v), self.t(idx))))
        if isinstance(v, Ref):
            return self.arrayitem(v, idx)
        return self.newref(mk("getitem", (self.t(v), self.t(idx))))

    def anyof(self, items, term):
        if not items:
            return self.newref(term)
        if all(isinstance(x, (Ref, ConstV)) for x in items):
            if len(items) == 1 and term.args[0].op == "list" and term.args[0].args[0].op == "many":
                return items[0]
            al = set()
            for x in items:
                al |= self.e.origins(x)
            return self.e.ref(term, None, al)
        return self.e.joinmany(list(items), len(self.e.loops))

    def arrayitem(self, v, idx):
        e = self.e
        vt, it = self.t(v), self.t(idx)
        if vt in self.sorted_info and isinstance(idx, ConstV) and isinstance(idx.v, int) and idx.v in (0, -1):
            info = self.sorted_info[vt]
            op = info["op"][0 if idx.v == 0 else 1]
            return self.byterm(info["elem"], op, info["key"], info["src"])
        it = self.normidx(it)
        rt = self.getitem_term(vt, it)
        if rt.op == "const":
            return ConstV(T.cval(rt))
        parts = it.args if it.op == "tuple" else (it,)
        basic = all(p.op == "slice" or self.scalarint(p) or p is NONE for p in parts)
        if basic and any(p.op == "slice" for p in parts):
            return self.mkview(v, it, rt)
        if basic:
            nd = self.ndim(vt)
            if nd is not None and nd == len(parts):
                return e.ref(rt)
            # a row of an array, or an element of some container: shares memory
            if nd is not None and nd > len(parts):
                return self.mkview(v, it, rt)
            return e.ref(rt, None, e.origins(v))
        if it.op == "const" and isinstance(T.cval(it), str):
            return e.ref(rt, None, e.origins(v))
        return e.ref(rt)

    def mkview(self, v, it, rt):
        e = self.e
        if rt.op == "getitem" or True:
            base = v.cid
            rec = e.st.heap[base]
            desc = ("idx", it)
            if isinstance(rec, Arr) and rec.base is not None and rec.base[1][0] == "idx":
                # view of view: collapse when possible
                outer = rec.base[1][1]
                if outer.op == "slice" and it.op == "tuple" and self.fullslice(it.args[0]):
                    return e.ref(rt, (rec.base[0], ("idx", T.tup([outer] + list(it.args[1:])))), e.origins(v))
            return e.ref(rt, (base, desc), e.origins(v))

    def dictget(self, v, idx, default=None):
        e = self.e
        rec = e.st.heap[v.cid]
        key = e.dictkey(idx)
        if key in rec.entries:
            x = rec.entries[key]
            if isinstance(x, PhiV):
                x = e.resolve_phi(x)
                if isinstance(x, PhiV):
                    e.checkbound(x, f"[{key!r}]") if default is None else None
                    x = e.dephi(x)
            if isinstance(x, UnsetV):
                e.event("key-missing", key=repr(key))
                return self.newref(mk("opaque", data=f"nokey{e.uid()}"))
            return x
        kt = self.t(idx)
        if isinstance(rec.kind, tuple) and rec.kind[0] == "opaque":
            return e.ref(mk("kwget", (rec.kind[1],), data=key if isinstance(key, str) else repr(key)))
        vals = [x for k, x in rec.entries.items() if isinstance(k, T.Term)] + [x for _, x, _ in rec.extra]
        if isinstance(key, T.Term):
            vals = list(rec.entries.values()) + [x for _, x, _ in rec.extra]
        if not vals:
            if rec.kind == "defaultdict":
                return self.newref(mk("getitem", (self.t(v), kt)))
            e.event("key-missing", key=repr(key))
            return self.newref(mk("opaque", data=f"nokey:{key}"))
        if all(isinstance(x, UnsetV) for x in vals):
            return self.newref(mk("opaque", data=f"nokey:{key}"))
        vals = [x for x in vals if not isinstance(x, UnsetV)]
        # a dictionary filled by one comprehension: its value at this key
        if len(vals) == 1:
            return vals[0]
        return self.anyof(vals, mk("getitem", (self.t(v), kt)))

    # ------------------------------------------------------------------ stores
    def objdict(self, kind, entries):
        """entries written to an object's __dict__ are its attributes"""
        if isinstance(kind, str) and kind.startswith("objdict:"):
            for k, x in entries.items():
                if isinstance(k, str):
                    self.e.setattr(ObjV(int(kind[8:])), k, x, raw=True)

    def store(self, obj, idx, v, aug=None):
        e = self.e
        if isinstance(obj, PhiV):
            obj = e.dephi(obj)
        if isinstance(obj, PhiV):
            s0 = e.st
            e.st = s0.fork()
            self.store(obj.a, idx, v, aug)
            A = e.st
            e.st = s0.fork()
            self.store(obj.b, idx, v, aug)
            e.st = e.join(obj.cond, A, e.st)
            return
        it = self.t(idx)
        if isinstance(obj, ListV):
            rec = e.st.heap[obj.cid]
            e.event("mutate", origins=frozenset({obj.cid}), how="item assignment", term=None, idx=it, value=self.t(v))
            items = list(rec.items)
            if isinstance(idx, ConstV) and isinstance(idx.v, int) and all(not c for _, c in items) \
                    and -len(items) <= idx.v < len(items):
                items[idx.v] = (v, frozenset())
            else:
                items = [(x, c | {"maybe"}) for x, c in items] + [(v, frozenset({"maybe"}))]
            e.st.heap[obj.cid] = LObj(items, rec.kind)
            return
        if isinstance(obj, DictV):
            rec = e.st.heap[obj.cid]
            e.event("mutate", origins=frozenset({obj.cid}), how="item assignment", term=None, idx=it, value=self.t(v))
            key = e.dictkey(idx)
            ent, extra = dict(rec.entries), list(rec.extra)
            if isinstance(key, T.Term) and e.loops and any(s.op in ("elem", "mu") for s in T.subterms(key)):
                extra.append((key, v, frozenset({f"loop:{e.loops[-1]}"})))
            else:
                ent[key] = v
            e.st.heap[obj.cid] = DObj(ent, rec.kind, extra)
            self.objdict(rec.kind, {key: v})
            return
        if isinstance(obj, ObjV):
            a, _ = e.st.heap[obj.cid].cls.lookup("__setitem__")
            if a is not None:
                e.callv(BoundV(a, obj), [idx, v], {})
                return
            e.event("mutate", origins=frozenset({obj.cid}), how="item assignment", term=None, idx=it, value=self.t(v))
            return
        if isinstance(obj, Ref):
            old = self.t(obj)
            vt = self.t(v)
            nt = self.store_term(old, it, vt)
            e.event("store", base=old, idx=self.normidx(it), value=vt, aug=aug, origins=frozenset(e.origins(obj)), cid=obj.cid)
            e.write(obj, nt, f"item assignment" if aug is None else f"item {aug}=", idx=self.normidx(it), value=vt)
            return
        e.event("store-other", target=self.t(obj))

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        e = self.e
        if isinstance(a, ConstV) and isinstance(b, ConstV):
            t = T.binop(op, const(a.v), const(b.v))
            if t.op == "const":
                return ConstV(T.cval(t))
            return e.val(t)
        if op == "add" and isinstance(a, TupV) and isinstance(b, TupV):
            return TupV(a.items + b.items)
        if op == "add" and isinstance(a, ListV) and isinstance(b, ListV):
            ra, rb = e.st.heap[a.cid], e.st.heap[b.cid]
            return ListV(e.cell(LObj(list(ra.items) + list(rb.items), "list")))
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ListV, TupV)):
                    if isinstance(y, ConstV) and isinstance(y.v, int) and y.v <= 12:
                        if isinstance(x, TupV):
                            return TupV(x.items * y.v)
                        r = e.st.heap[x.cid]
                        return ListV(e.cell(LObj(list(r.items) * y.v, r.kind)))
                    if isinstance(y, (Ref, ConstV)):
                        items = list(x.items) if isinstance(x, TupV) else [q for q, _ in e.st.heap[x.cid].items]
                        e._lid += 1
                        e.loopiter[e._lid] = mk("range", (self.t(y),))
                        return ListV(e.cell(LObj([(q, frozenset({f"loop:{e._lid}"})) for q in items], "list")))
        if isinstance(a, (ListV, DictV, IterV, LibM)) or isinstance(b, (ListV, DictV, IterV)):
            ta, tb = self.t(a), self.t(b)
            if (isinstance(a, ListV) and isinstance(b, Ref)) or (isinstance(b, ListV) and isinstance(a, Ref)):
                return e.val(self.binop_term(op, ta, tb))
            return self.newref(mk(op, (ta, tb)), e.origins(a) | e.origins(b) if op == "or" else ())
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            nm = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "matmul": "__matmul__", "div": "__truediv__"}.get(op)
            if isinstance(a, ObjV) and nm:
                f, _ = e.st.heap[a.cid].cls.lookup(nm)
                if f is not None:
                    return e.callv(BoundV(f, a), [b], {})
        ta, tb = self.t(a), self.t(b)
        if op == "div" and ta.op in ("path", "pathjoin") or (op == "div" and T.strish(tb)):
            return self.newref(self.pathjoin([ta, tb]))
        return e.val(self.binop_term(op, ta, tb))

    def pathjoin(self, ps):
        out = []
        for p in ps:
            if p.op == "pathjoin":
                out.extend(p.args)
            elif p.op == "path":
                out.append(p.args[0])
            else:
                out.append(p)
        if len(out) == 1:
            return mk("path", out)
        return mk("pathjoin", out)

    def binop_term(self, op, a, b):
        r = self._binop_term(op, a, b)
        if op in ("and", "or", "xor"):
            self.bitwise.add(r)
        return r

    def _binop_term(self, op, a, b):
        if op == "matmul":
            return mk("matmul", (a, b))
        if op in ("add", "or") and self.boolish(a) and self.boolish(b) and (self.ndim_positive(a) or self.ndim_positive(b)
                                                                         or op == "or"):
            return self.boolor(a, b)
        if op in ("mul", "and") and self.boolish(a) and self.boolish(b):
            if a is TRUE:
                return b
            if b is TRUE:
                return a
            if a is b:
                return a
            return T.binop("and", a, b)
        if op == "sub" and self.boolish(a) and self.boolish(b):
            return mk("sub", (a, b))
        if op == "or":
            return self.boolor(a, b)
        if op == "matmul":
            return mk("matmul", (a, b))
        if op == "mul" and b.op == "const" and T.isnum(b) and T.cval(b) == 0.5:
            return T.binop("div", a, const(2))
        if op == "mul" and a.op == "const" and T.isnum(a) and T.cval(a) == 0.5:
            return T.binop("div", b, const(2))
        if op == "pow" and T.isnum(b) and T.cval(b) == 0.5:
            return mk("sqrt", (a,))
        return T.binop(op, a, b)

    def boolor(self, a, b):
        if a is b:
            return a
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        return T.binop("or", a, b)

    CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}

    def compare(self, op, a, b):
        e = self.e
        if isinstance(a, PhiV):
            a = e.dephi(a)
        if isinstance(b, PhiV):
            b = e.dephi(b)
        if op in (ast.Is, ast.IsNot):
            r = None
            if isinstance(a, PhiV) or isinstance(b, PhiV):
                p, q = (a, b) if isinstance(a, PhiV) else (b, a)
                r = phi(p.cond, self.compare(ast.Is, p.a, q), self.compare(ast.Is, p.b, q))
                return r if op is ast.Is else lnot(r)
            if isinstance(a, ConstV) and isinstance(b, ConstV):
                if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                    r = a.v is b.v
            elif isinstance(a, (ListV, DictV, ObjV, TupV, FuncV, ClsV, LibV, BoundV, IterV)) and isinstance(b, ConstV):
                r = False
            elif isinstance(b, (ListV, DictV, ObjV, TupV, FuncV, ClsV, LibV, BoundV, IterV)) and isinstance(a, ConstV):
                r = False
            elif isinstance(a, (ObjV, ClsV)) and isinstance(b, (ObjV, ClsV)):
                r = e.same(a, b)
            if r is not None:
                return const(r if op is ast.Is else not r)
            ta, tb = self.t(a), self.t(b)
            if ta is NONE:
                ta, tb = tb, ta
            if op is ast.Is and (tb is TRUE):
                return ta if self.boolish(ta) else mk("is", (ta, tb))
            return mk("is" if op is ast.Is else "isnot", (ta, tb))
        if op in (ast.In, ast.NotIn):
            r = self.contains(a, b)
            return r if op is ast.In else lnot_in(r)
        o = self.CMP[op]
        if isinstance(a, TupV) and isinstance(b, TupV) and o in ("eq", "ne") and len(a.items) == len(b.items):
            r = TRUE
            for x, y in zip(a.items, b.items):
                r = land(r, self.compare(ast.Eq, x, y))
            return r if o == "eq" else lnot(r)
        return self.cmp_term(o, self.t(a), self.t(b))

    def cmp_term(self, o, a, b):
        if o == "gt":
            o, a, b = "lt", b, a
        if o == "ge":
            o, a, b = "le", b, a
        if o in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if self.boolish(x) and (y is FALSE or T.is_c(y, 0)):
                    return lnot(x) if o == "eq" else x
                if self.boolish(x) and (y is TRUE or T.is_c(y, 1)):
                    return x if o == "eq" else lnot(x)
        return T.binop(o, a, b)

    def contains(self, a, b):
        e = self.e
        ta = self.t(a)
        if isinstance(b, DictV):
            rec = e.st.heap[b.cid]
            key = e.dictkey(a)
            if isinstance(rec.kind, tuple) and rec.kind[0] == "opaque":
                if key in rec.entries:
                    return TRUE
                if isinstance(key, str) and key in rec.kind[2]:
                    return FALSE
                return mk("kwhas", (rec.kind[1],), data=key)
            if key in rec.entries and not isinstance(rec.entries[key], (PhiV, UnsetV)):
                return TRUE
            if not isinstance(key, T.Term) and key not in rec.entries and not rec.extra and \
                    not any(isinstance(k, T.Term) for k in rec.entries):
                return FALSE
        if isinstance(b, ConstV) and isinstance(a, ConstV):
            try:
                return const(a.v in b.v)
            except Exception:
                pass
        items = e.known_items(b) if not isinstance(b, ConstV) or not isinstance(b.v, str) else None
        if items is not None and len(items) <= 12 and all(isinstance(x, (ConstV, Ref)) for x in items):
            r = FALSE
            for x in items:
                r = lor(r, T.binop("eq", ta, self.t(x)))
            return r
        return mk("in", (ta, self.t(b)))

    def boolterm(self, t):
        """truth value of t as a condition"""
        if t.op == "const":
            return const(bool(T.cval(t)))
        if t.op == "size":
            return mk("ne", (t, const(0)))
        if t.op == "toBool":
            return t.args[0]
        return t

    def tostr(self, t):
        if T.strish(t):
            return t
        return mk("tostr", (t,))

    def list_extend(self, lv, rhs):
        e = self.e
        rec = e.st.heap[lv.cid]
        items = e.known_items(rhs)
        ctx = self.loopctx()
        if items is not None:
            new = [(x, ctx) for x in items]
        elif isinstance(rhs, ListV):
            new = [(x, c | ctx) for x, c in e.st.heap[rhs.cid].items]
        elif isinstance(rhs, IterV) and rhs.kind == "gen":
            new = [(x, c | ctx) for x, c in rhs.data["items"]]
        else:
            e._lid += 1
            e.loopiter[e._lid] = self.t(rhs)
            new = [(e.elem(rhs), ctx | {f"loop:{e._lid}"})]
        e.st.heap[lv.cid] = LObj(list(rec.items) + new, rec.kind)

    def loopctx(self):
        return frozenset()

    # ------------------------------------------------------------------ selection by key
    def byterm(self, v, op, key, src):
        """the element of an iterable selected by op in (minby, maxby) of key"""
        e = self.e
        if isinstance(v, TupV):
            return TupV([self.byterm(x, op, key, src) for x in v.items])
        return self.newref(mk(op, (self.t(v), key, src)))

    # ------------------------------------------------------------------ attributes
    def libattr(self, v, name):
        return libfuncs.libattr(self, v, name)

    def refattr(self, v, name):
        return libmethods.refattr(self, v, name)

    def objattr(self, v, name):
        """attribute of an object whose class derives from a library class"""
        if name == "training":
            return self.newref(mk("training"))
        return LibM(v, name)

    def call(self, name, args, kw):
        if name not in ("builtins.zip", "builtins.enumerate", "builtins.map", "builtins.filter", "builtins.iter", "itertools.chain"):
            for x in list(args) + list(kw.values()):
                if isinstance(x, IterV) and x.kind == "poolmap":
                    self.e.event("consume", term=x.data["term"], by=name)
        return libfuncs.call(self, name, args, kw)

    def method(self, recv, name, args, kw):
        e = self.e
        if isinstance(recv, PhiV):
            recv = e.dephi(recv)
        if isinstance(recv, PhiV):
            return e.distribute(recv, lambda x: self.method(x, name, args, kw))
        return libmethods.method(self, recv, name, args, kw)

    def apply(self, f, args, kw):
        return libmethods.apply(self, f, args, kw)

    def libinit(self, obj, args, kw):
        self.e.event("lib-init", cls=self.e.st.heap[obj.cid].cls.qual)

    def enter(self, v):
        if isinstance(v, ObjV):
            a, _ = self.e.st.heap[v.cid].cls.lookup("__enter__")
            if a is not None:
                return self.e.callv(BoundV(a, v), [], {})
        return v

    def elem_of(self, v, t, depth):
        e = self.e
        al = e.origins(v) if isinstance(v, Ref) else set()
        if t.op == "range":
            return e.ref(mk("elem", (t,), data=depth))
        if t.op == "sortedby" and t in self.sorted_info:
            return self.sorted_info[t]["elem"]
        if t.op in ("list", "tuple") and t.args and isinstance(v, Ref):
            return e.ref(mk("elem", (t,), data=depth), None, al)
        if isinstance(v, Ref) and (self.ndim_positive(t) or e.is_arrayish(v)):
            if t.op == "arange" and len(t.args) == 1:
                return e.ref(mk("elem", (mk("range", t.args),), data=depth))
            nd = self.ndim(t)
            if t.op in ("flatnonzero", "fromiter", "arange", "argwhere", "unique") or nd == 1:
                return e.ref(mk("elem", (t,), data=depth))
            ix = mk("elem", (mk("range", (self.dim(t, 0),)),), data=depth)
            rt = self.getitem_term(t, ix)
            return e.ref(rt, (v.cid, ("idx", ix)), al)
        if t.op in ("permutations",):
            return e.ref(mk("elem", (t,), data=depth))
        return e.ref(mk("elem", (t,), data=depth), None, al)


def lnot_in(r):
    if r.op == "in":
        return mk("notin", r.args)
    return lnot(r)
