"""Row-permutation analysis: how does a term change when the rows of an array argument A are reordered by a permutation P?

tag(t):  "I" unchanged   "R" rows permuted (PX)   "C" columns permuted (XP')   "RC" both   "D" changes in another way   None not understood
"""
from . import terms as T
from .normal import num

ELEM = {"add", "sub", "mul", "div", "floordiv", "mod", "pow", "neg", "abs", "square", "sqrt", "exp", "log", "sign", "not", "and", "or", "xor", "lt", "le", "eq", "ne", "gt", "ge",
        "astype", "asarray", "array", "copyof", "maximum", "minimum", "where", "clip", "bool", "int", "float", "PROD", "SUM", "SCALED", "RECIP", "band", "bor", "bxor", "invert",
        "toint", "tofloat", "tobool", "logical", "isclose"}
REDUCE = {"sum", "mean", "any", "all", "max", "min", "prod", "norm", "count_nonzero", "std", "var", "median", "amax", "amin"}
SIZES = {"dim", "size", "len", "shape", "ndim"}
COMM = {"add", "or", "and", "bor", "band", "mul", "maximum", "minimum", "xor", "bxor"}


class RowInv:
    def __init__(self, eng, A):
        self.eng, self.A, self.memo, self.rows = eng, A, {}, set()

    def ndim(self, t):
        return self.eng.lib.ndim(t)

    def has(self, t):
        return any(x is self.A for x in T.subterms(t, True))

    def tag(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self.rule(t)
        return self.memo[t]

    def over_rows(self, it):
        """is an iterable a walk over the rows of something row-permuted?"""
        if it is None:
            return False
        while it.op in ("list", "tuple", "iter") and len(it.args) == 1 and it.args[0].op != "many":
            it = it.args[0]
        return self.tag(it) == "R"

    def rule(self, t):
        if t is self.A:
            return "R"
        if t.op == "elem" and t.args and self.over_rows(t.args[0]):
            return "I" if t in self.rows else None
        if not self.has(t):
            return "I"
        op, a = t.op, t.args
        if op in SIZES:
            return "I"
        if op == "T":
            return {"R": "C", "C": "R", "I": "I", "RC": "RC", "D": "D"}.get(self.tag(a[0]))
        if op in ("list", "tuple", "gen", "set", "sorted") and len(a) == 1 and a[0].op == "many":
            return self.many(a[0], op)
        if op in ELEM:
            return self.elementwise(list(a[:1]) if op in ("astype", "asarray", "array", "copyof") else list(a))
        if op == "matmul":
            x, y = self.tag(a[0]), self.tag(a[1])
            if (x, y) == ("I", "I"):
                return "I"
            if (x, y) == ("C", "R"):
                return "I"
            if (x, y) == ("R", "C"):
                return "RC"
            if x in ("R", "RC") and y == "I":
                return "R" if x == "R" else "D"
            if x == "I" and y in ("C",):
                return "C"
            if x == "I" and y in ("R", "RC"):
                return "I" if y == "R" and a[0].op == "full" else "D" if self.ndim(a[0]) in (1, 2) or a[0].op == "param" else None
            if (x, y) in (("RC", "R"), ):
                return "R"
            if (x, y) == ("C", "RC"):
                return "C"
            if x == "C" and y == "I":
                return "I" if a[1].op == "full" else None
            return "D" if "D" in (x, y) else None
        if op in REDUCE:
            return self.reduce(t)
        if op == "sort":
            ax = dict(t.kw).get("axis") or (a[1] if len(a) > 1 else None)
            x = self.tag(a[0])
            n = num(ax) if ax is not None else None
            if x == "R" and (n == 0 or n in (None, -1) and self.ndim(a[0]) == 1):
                return "I"
            return "I" if x == "I" else "R" if x == "R" and n in (1, -1) else None
        if op in ("cumsum", "cumprod", "diff"):
            ax = dict(t.kw).get("axis") or dict(t.kw).get("dim") or (a[1] if len(a) > 1 else None)
            x, n = self.tag(a[0]), num(ax) if ax is not None else None
            if x == "I" or x == "D":
                return x
            if x in ("R", "C") and n in (0, 1, -1):
                return "D" if (n == 0) == (x == "R") else x
            return None
        if op == "mu":
            return self.loop(t)
        if op in ("triu", "tril", "diag", "diagonal", "diagidx", "trace"):
            x = self.tag(a[0])
            if op == "trace" and x == "RC":
                return "I"
            return "I" if x == "I" and all(self.tag(y) == "I" for y in a[1:]) else "D" if x in ("R", "C", "D") else None
        if op == "store" and len(a) == 3 and a[1].op == "diagidx" and self.tag(a[2]) == "I" and self.tag(a[0]) == "RC":
            return "RC"
        if op == "getitem":
            x = self.tag(a[0])
            ix = a[1].args if a[1].op == "tuple" else (a[1],)
            if x == "I":
                return "I" if all(self.tag(i) == "I" for i in ix) else None
            if x == "D":
                return "D"
            whole = [i.op == "slice" and all(T.is_const(z) and T.cval(z) is None for z in i.args) for i in ix]
            if x == "R":
                return "R" if whole[0] else "D" if T.is_const(ix[0]) or ix[0].op == "slice" else None
            if x == "C":
                if whole and len(ix) == 1:
                    return "C"
                if len(ix) == 1:
                    return "R" if self.tag(ix[0]) == "I" else None
                return "C" if whole[1] and ix[0].op == "slice" else "D" if T.is_const(ix[1]) or ix[1].op == "slice" else None
            return None
        if op == "phi":
            ts = [self.tag(x) for x in a]
            return self.join(ts)
        ts = [self.tag(x) for x in T.children(t)]
        if all(x == "I" for x in ts):
            return "I"
        return "D" if "D" in ts else None

    def join(self, ts):
        if all(x == "I" for x in ts):
            return "I"
        if "D" in ts:
            return "D"
        return None

    def elementwise(self, xs):
        ts = [self.tag(x) for x in xs]
        if all(x == "I" for x in ts):
            return "I"
        if "D" in ts:
            return "D"
        if None in ts:
            return None
        kinds = set(ts) - {"I"}
        if len(kinds) > 1:
            return "D"
        k = kinds.pop()
        for x, g in zip(xs, ts):
            if g == "I":
                n = 0 if num(x) is not None or T.is_const(x) else self.ndim(x)
                if n == 0 or x.op == "full":
                    continue
                if k == "R" and n == 1 and any(self.ndim(y) == 2 for y, h in zip(xs, ts) if h == "R"):
                    continue
                return "D" if n is not None or x.op == "param" else None
        return k

    def reduce(self, t):
        kw = dict(t.kw)
        x = self.tag(t.args[0])
        if x in ("I", "D", None):
            return x
        ax = kw.get("axis", kw.get("dim"))
        if ax is None and len(t.args) > 1 and t.op not in ("norm",):
            ax = t.args[1]
        if "keepdims" in kw:
            return None
        nd = self.ndim(t.args[0])
        if ax is None or T.is_const(ax) and T.cval(ax) is None:
            return "I"
        n = num(ax)
        if n is None:
            return None
        if n < 0:
            n += nd if nd else 2
        if x == "R":
            return "I" if n == 0 else "R"
        if x == "C":
            return "R" if n == 0 else "I"
        return "R"

    def many(self, m, op):
        its = m.args[1:]
        if len(its) != 1 or m.data == "maybe" or not self.over_rows(its[0]):
            return None
        x = self.body(m.args[0])
        if x != "I":
            return None
        return "I" if op in ("set", "sorted") else "R"

    def body(self, t):
        """tag of a loop body whose row element is the loop variable"""
        es = {x for x in T.subterms(t, True) if x.op == "elem" and x.args and self.over_rows(x.args[0])}
        if any(x.op == "index" and x.args and self.has(x.args[0]) for x in T.subterms(t, True)):
            return None
        old = self.rows
        self.rows = old | es
        for e in es:
            self.memo.pop(e, None)
        save, self.memo = self.memo, {k: v for k, v in self.memo.items() if v is not None}
        r = self.tag(t)
        self.rows, self.memo = old, save
        return r

    def loop(self, t):
        d = T.MU[t.data]
        if not self.over_rows(self.eng.loopiter.get(d["loop"])) or self.tag(d["init"]) != "I":
            return None
        nx = d["next"]
        if nx.op not in COMM or t not in nx.args or len(nx.args) != 2:
            return None
        y = nx.args[1] if nx.args[0] is t else nx.args[0]
        if t in T.subterms(y, True):
            return None
        return "I" if self.body(y) == "I" else None
