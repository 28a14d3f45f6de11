"""How a term depends on the encoding (0/1 integers or booleans) of a graph argument.

 N  the same value in both encodings
 R  the graph itself or a rearrangement of it: 0/1 in the argument's own type
 A  0/1, but the analysis cannot tell whether in the argument's own type or boolean (& | ^, logical or bitwise)
 P  non-zero in the same places, but a count for integers and a truth value for booleans
 X  different for the two encodings (the site is recorded)
 U  depends on the graph in a way that is not modelled
"""
from . import terms as T

ORDER = {"N": 0, "R": 1, "A": 2, "P": 3, "U": 4, "X": 5}
REARR = {"T", "triu", "tril", "reshape", "ravel", "diag", "diagonal", "flip", "sort", "delete", "roll", "swapaxes", "squeeze", "expand", "copyof",
         "asarray", "tile", "repeat", "permuted", "elem", "blockdiag", "unique"}
POSITION = {"nonzero", "flatnonzero", "argwhere", "where1", "any", "all", "count", "nnz"}        # depend only on where the non-zeros are
SIZE = {"dim", "size", "shape", "len", "ndim", "range", "cells", "diagidx", "triu_indices", "tril_indices", "arange"}
VALUE = {"sum", "mean", "argmax", "argmin", "cumsum", "trace", "enumerate", "cov", "corr", "std", "var", "linspace"}
COMPARE = {"eq", "ne", "lt", "le", "gt", "ge"}
ZERO_ONE = (0, 1)


def up(*ks):
    return max(ks, key=ORDER.get) if ks else "N"


class Encoding:
    def __init__(self, lib, sources):
        """sources: set of the terms that are graph arguments"""
        self.lib, self.src = lib, set(sources)
        self.memo, self.sites, self.dep, self.mus = {}, {}, {}, {}
        self.changed = False

    def depends(self, t):
        if t not in self.dep:
            self.dep[t] = any(x in self.src for x in T.subterms(t, True, stop=lambda x: x.op in SIZE))
        return self.dep[t]

    def bad(self, t, why, sure=True):
        self.sites.setdefault((t, why), sure)
        return "X" if sure else "U"

    def isbool(self, t):
        return self.lib.boolish(t) or T.is_const(t) and isinstance(T.cval(t), bool)

    def zeroone(self, t):
        return T.is_const(t) and T.cval(t) in ZERO_ONE or self.isbool(t)

    def ev(self, t):
        if t in self.src:
            return "R"
        if t in self.memo:
            return self.memo[t]
        if t.op == "mu":
            if t in self.mus:
                return self.mus[t]
            info = T.MU.get(t.data)
            if not info or not self.depends(t):
                return "N"
            self.mus[t] = self.ev(info["init"]) if info.get("init") is not None else "N"
            for _ in range(6):
                self.memo = {k: v for k, v in self.memo.items() if not any(x.op == "mu" for x in T.subterms(k, True))}
                k = up(self.mus[t], self.ev(info["next"])) if info.get("next") is not None else self.mus[t]
                if k == self.mus[t]:
                    break
                self.mus[t] = k
            return self.mus[t]
        if t.op in SIZE:
            return "N"
        if not t.args and not t.kw:
            return "N"
        if not self.depends(t):
            return "N"
        self.memo[t] = "U"
        k = self.rule(t)
        self.memo[t] = k
        return k

    def rule(self, t):
        op, a = t.op, t.args
        K = [self.ev(x) for x in a]
        kw = {n: self.ev(v) for n, v in t.kw}
        if all(k == "N" for k in K) and all(k == "N" for k in kw.values()):
            return "N"
        if op == "dtype":
            return K[0]
        if op == "not":
            return "N" if K[0] != "U" else "U"
        if op == "invert":
            if K[0] in ("R", "P"):
                return self.bad(t, "bitwise complement of a graph argument: for integers it is -1 - x, not the complement")
            if K[0] == "A":
                return self.bad(t, "bitwise complement of a graph argument", False)
            return K[0]
        if op in ("and", "or", "xor"):
            return self.boolean(t, K)
        if op in ("band", "bor"):
            return "U" if "U" in K else "N"
        if op in ("phi", "where"):
            if op == "where" and len(a) == 1:
                return "N"
            return up(*K[1:])
        if op in COMPARE:
            for x, o, k in ((a[0], a[1], K[0]), (a[1], a[0], K[1])):
                if k == "P":
                    c = T.cval(o) if T.is_const(o) else None
                    left = x is a[0]
                    ok = c == 0 and (op in ("eq", "ne") or op in ("lt", "ge") and True or op in ("gt", "le"))
                    ok = ok or c == 1 and (op == "lt" and left or op == "ge" and left or op == "gt" and not left or op == "le" and not left)
                    if not ok:
                        return self.bad(t, "a count of common entries is compared with more than zero: booleans never exceed one")
            return "U" if "U" in K else "N"
        if op in ("index", "tostr", "is", "isnot", "strcat", "excobj"):
            return "N"
        if op in POSITION or op == "bool":
            return "U" if "U" in K else "N"
        if op == "astype" or op == "array" and t.kwd("dtype") is not None:
            dt = a[1] if op == "astype" else t.kwd("dtype")
            if dt.op == "dtype" and self.ev(dt) != "N":
                return up(K[0], "R") if self.zeroone(a[0]) or K[0] != "N" else self.bad(t, "values cast to the type of a graph argument")
            if T.is_c(dt, "bool"):
                return "U" if K[0] == "U" else "N"
            return {"R": "N", "A": "N"}.get(K[0], K[0])
        if op in ("add", "sub", "mul", "matmul", "div", "floordiv", "pow", "mod", "maximum", "minimum", "neg", "inner", "outer"):
            return self.arith(t, op, a, K)
        if op in VALUE or op in ("max", "min", "prod"):
            if K and K[0] == "P":
                return self.bad(t, "a count of common entries is added up: for booleans it is only zero or one")
            if op in ("max", "min", "prod"):
                return K[0]
            return "U" if "U" in K else "N"
        if op == "getitem":
            if len(K) > 1 and self.index(t, a[1]) == "X":
                return "X"
            return K[0]
        if op == "store":
            return self.store(t, a, K)
        if op in ("full", "empty"):
            like = t.kwd("like")
            dt = t.kwd("dtype")
            if dt is not None and not (dt.op == "dtype" and self.ev(dt) != "N"):
                return "N" if K[-1] in ("N", "R") else K[-1]
            if like is not None and self.ev(like) in ("R", "A", "P") or dt is not None:
                if op == "empty" or self.zeroone(a[1]):
                    return "R"
                return self.bad(t, "a value other than 0 and 1 in an array that takes its type from a graph argument")
            return "U" if "U" in K else up("N", *K[1:])
        if op in REARR:
            return K[0]
        if op in ("vstack", "hstack", "concat", "stack", "tuple", "list", "array", "many", "zip", "set", "dict", "column_stack", "asarray", "totuple",
                  "tolist", "toset", "fromiter"):
            return up(*K)
        if op in ("exp", "log", "sqrt"):
            return self.bad(t, "numeric function of counts") if K[0] == "P" else "U" if K[0] == "U" else "N"
        if op == "abs":
            return K[0]
        if op == "optx" or op == "draw" or op.startswith("dist"):
            return "N"
        return "U"

    def boolean(self, t, K):
        logical, bitwise = t in self.lib.logical, t in self.lib.bitwise
        if "U" in K:
            return "U"
        if logical and not bitwise:
            return "N"
        if bitwise and not logical:
            if "P" in K and t.op == "or":
                return "P"
            if "P" in K:
                return self.bad(t, f"bitwise '{t.op}' of a count of common entries")
            if t.op == "and" and any(self.isbool(a) for a in t.args) and False:
                return "N"
            return "R"
        return "A"

    def arith(self, t, op, a, K):
        if "U" in K or "X" in K:
            return up(*K)
        if op == "neg":
            return self.bad(t, "negation of a graph argument: not defined for booleans") if K[0] in ("R", "P") else "U"
        if "A" in K:
            return "U"
        both = all(k in ("R", "P") or self.isbool(x) for k, x in zip(K, a))
        if op == "sub" and both:
            return self.bad(t, "difference of two graphs: not defined for booleans")
        if op in ("add", "matmul", "inner"):
            if both:
                return "P"
            if "P" in K:
                return self.bad(t, "a count of common entries is used as a number: for booleans it is only zero or one")
            return "N"
        if op in ("maximum", "minimum"):
            if both:
                return up(*K)
            if op == "minimum" and any(T.is_c(x, 1) for x in a):
                return "N"
            return "N" if "P" not in K else self.bad(t, "a count of common entries is used as a number")
        if op in ("mul", "outer"):
            if both:
                return up(*K)
            if "P" in K:
                return self.bad(t, "a count of common entries is used as a number: for booleans it is only zero or one")
            return "N"
        if op == "div":
            return self.bad(t, "a count of common entries is used as a number") if "P" in K else "N"
        if op in ("sub", "pow", "mod", "floordiv"):
            if "P" in K:
                return self.bad(t, "a count of common entries is used as a number: for booleans it is only zero or one")
            if op == "pow" and K[0] == "R":
                return "N"
            return "N" if op == "sub" else "U"
        return "U"

    def index(self, t, i):
        parts = i.args if i.op == "tuple" else (i,)
        for p in parts:
            if p.op in ("slice", "const", "diagidx"):
                continue
            k = self.ev(p)
            if k == "R" and p.op != "elem" and self.lib.ndim(p) == 0:
                k = "R"
            if k in ("R", "P"):
                return self.bad(t, "a graph argument selects entries of an array: a mask for booleans, positions for integers")
            if k == "A":
                self.bad(t, "a graph argument selects entries of an array", False)
        return "N"

    def store(self, t, a, K):
        base, idx, val = a[0], a[1], a[2]
        if self.index(t, idx) == "X":
            return "X"
        kb, kv = K[0], K[2]
        if kv == "X" or kb == "X":
            return "X"
        if kb == "N":
            if kv == "P":
                return "N" if self.isbool(base) else "P"
            return "N" if kv in ("N", "R", "A") else kv
        if kb in ("R", "A", "P"):
            if kv in ("R", "A", "P"):
                return up(kb, kv)
            if kv == "N":
                if self.zeroone(val):
                    return kb
                if T.is_const(val) or self.float(val):
                    return self.bad(t, "values other than 0 and 1 are stored in an array that has the type of a graph argument")
                return "U"
        return "U"

    def float(self, t):
        if t.op == "draw":
            return t.data[0] in ("random", "uniform", "normal", "standard_normal", "rand", "randn", "multivariate_normal", "exponential", "beta", "gamma", "lognormal", "laplace")
        if t.op in ("add", "sub", "mul", "neg", "abs", "maximum", "minimum"):
            return any(self.float(x) for x in t.args)
        if t.op == "const":
            return isinstance(T.cval(t), float) and T.cval(t) != int(T.cval(t))
        return t.op in ("optx", "div", "sqrt", "log", "exp", "mean") or t.op in ("getitem", "store") and any(self.float(t.args[i]) for i in ((0,) if t.op == "getitem" else (0, 2)))
