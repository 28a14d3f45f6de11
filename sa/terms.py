"""Hash-consed value-flow terms with light algebraic normalisation.

A Term is (op, args, kw).  args are Terms; kw is a sorted tuple of (name, Term).
Leaf data (constants, parameter names, ids) sits in `data`.
"""
from __future__ import annotations


class Term:
    __slots__ = ("op", "args", "kw", "data", "uid", "locs")

    def __repr__(self):
        return show(self, 5)

    def __lt__(self, other):
        return self.uid < other.uid

    def kwd(self, name, default=None):
        for k, v in self.kw:
            if k == name:
                return v
        return default


_table: dict = {}
_count = 0
CURRENT_LOC = None


def mk(op, args=(), kw=(), data=None):
    global _count
    args = tuple(args)
    if isinstance(kw, dict):
        kw = tuple(sorted(kw.items()))
    for a in args:
        assert isinstance(a, Term), (op, a)
    key = (op, tuple(a.uid for a in args), tuple((k, v.uid) for k, v in kw),
           (type(data).__name__, data))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.kw, t.data = op, args, tuple(kw), data
        _count += 1
        t.uid = _count
        t.locs = []
        _table[key] = t
    if CURRENT_LOC is not None and len(t.locs) < 6 and CURRENT_LOC not in t.locs:
        t.locs.append(CURRENT_LOC)
    return t


def const(v):
    return mk("const", data=("%s" % type(v).__name__, repr(v), v) if not _hashable(v) else (type(v).__name__, v))


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.data[-1]


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNSET = mk("unset")


def is_c(t, v):
    return t.op == "const" and type(cval(t)) is type(v) and cval(t) == v


def isnum(t):
    return t.op == "const" and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool)


def children(t):
    for a in t.args:
        yield a
    for _, v in t.kw:
        yield v


# --- show -------------------------------------------------------------------
def show(t, depth=4):
    if t.op == "const":
        return repr(cval(t))
    if t.op in ("param", "opaque"):
        return f"{t.data}"
    if t.op == "lib":
        return t.data
    if depth <= 0:
        return "…"
    bits = [show(a, depth - 1) for a in t.args] + [f"{k}={show(v, depth-1)}" for k, v in t.kw]
    d = f"#{t.data}" if t.data is not None else ""
    if t.op == "phi" and len(t.args) == 3:
        return f"({bits[1]} if {bits[0]} else {bits[2]})"
    return f"{t.op}{d}({', '.join(bits)})"


# --- mu table -----------------------------------------------------------------
MU: dict = {}   # data id -> dict(init=Term, next=Term|None, loop=id, name=str)
_mu = 0


def new_mu(init, loop, name):
    global _mu
    _mu += 1
    t = mk("mu", data=_mu)
    MU[_mu] = {"init": init, "next": None, "loop": loop, "name": name}
    return t


def mu_info(t):
    return MU[t.data]


# --- smart constructors ---------------------------------------------------------
COMM = {"add", "mul", "and", "or", "xor", "eq", "ne", "maximum", "minimum"}


def phi(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return phi(c.args[0], b, a)
    # same-condition nesting
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    return mk("phi", (c, a, b))


def lnot(a):
    if a.op == "not":
        return a.args[0]
    if a.op == "const":
        return const(not cval(a))
    if a.op == "eq":
        return mk("ne", a.args)
    if a.op == "ne":
        return mk("eq", a.args)
    if a.op == "is":
        return mk("isnot", a.args)
    if a.op == "isnot":
        return mk("is", a.args)
    return mk("not", (a,))


def land(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    return mk("band", (a, b))


def lor(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a is b:
        return a
    return mk("bor", (a, b))


def conj(ts):
    r = TRUE
    for t in ts:
        r = land(r, t)
    return r


_ARITH = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
    "pow": lambda a, b: a ** b,
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
}


def _ok_fold(op, a, b):
    va, vb = cval(a), cval(b)
    if op in ("eq", "ne"):
        simple = (int, float, str, bool, type(None), bytes)
        return isinstance(va, simple) and isinstance(vb, simple)
    if op in ("add", "lt", "le") and isinstance(va, str) and isinstance(vb, str):
        return True
    if op == "pow" and isnum(a) and isnum(b):
        return abs(vb) < 64 and abs(va) < 1e6
    num = (int, float)
    return isinstance(va, num) and isinstance(vb, num)


def binop(op, a, b):
    if op == "gt":
        return binop("lt", b, a)
    if op == "ge":
        return binop("le", b, a)
    if a.op == "const" and b.op == "const" and op in _ARITH and _ok_fold(op, a, b):
        try:
            return const(_ARITH[op](cval(a), cval(b)))
        except Exception:
            pass
    if op in ("eq", "ne") and a is b and a.op in ("const", "lib"):
        return TRUE if op == "eq" else FALSE
    if op == "add":
        if strish(a) or strish(b):
            return strcat([a, b])
        if isnum(b) and cval(b) == 0 and not isinstance(cval(b), bool):
            return a
        if isnum(a) and cval(a) == 0:
            return b
        if b.op == "neg":
            return binop("sub", a, b.args[0])
        if a.op == "neg":
            return binop("sub", b, a.args[0])
        if a.op in ("list", "tuple") or b.op in ("list", "tuple"):
            return mk("add", (a, b))
    if op == "sub":
        if isnum(b) and cval(b) == 0:
            return a
        if b.op == "neg":
            return binop("add", a, b.args[0])
        if isnum(a) and cval(a) == 0:
            return neg(b)
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if isnum(x) and cval(x) == 1:
                return y
            if isnum(x) and cval(x) == -1:
                return neg(y)
        if a.op == "neg" and b.op == "neg":
            return binop("mul", a.args[0], b.args[0])
        if a.op == "neg":
            return neg(binop("mul", a.args[0], b))
        if b.op == "neg":
            return neg(binop("mul", a, b.args[0]))
        if a is b:
            return mk("pow", (a, const(2)))
    if op == "div":
        if isnum(b) and cval(b) == 1:
            return a
        if a.op == "neg":
            return neg(binop("div", a.args[0], b))
    if op == "pow" and isnum(b) and cval(b) in (1, 1.0):
        return a
    if op == "pow" and isnum(b) and cval(b) == 2.0:
        b = const(2)
    if op == "mod" and strish(a):
        return mk("fmt", (a, b))
    if op in COMM and b.uid < a.uid:
        a, b = b, a
    return mk(op, (a, b))


def neg(a):
    if a.op == "neg":
        return a.args[0]
    if isnum(a):
        return const(-cval(a))
    if a.op == "sub":
        return binop("sub", a.args[1], a.args[0])
    return mk("neg", (a,))


def strish(t):
    return (t.op == "const" and isinstance(cval(t), str)) or t.op in ("strcat", "tostr", "pathjoin")


def strcat(parts):
    out = []
    for p in parts:
        if p.op == "strcat":
            out.extend(p.args)
        elif p.op == "tostr" :
            out.append(p.args[0] if strish(p.args[0]) else p)
        else:
            out.append(p)
    res = []
    for p in out:
        if is_const(p) and isinstance(cval(p), str):
            if cval(p) == "":
                continue
            if res and is_const(res[-1]) and isinstance(cval(res[-1]), str):
                res[-1] = const(cval(res[-1]) + cval(p))
                continue
        res.append(p)
    if not res:
        return const("")
    if len(res) == 1 and is_const(res[0]):
        return res[0]
    return mk("strcat", res)


def transpose(x):
    if x.op == "T":
        return x.args[0]
    if x.op in ("diag", "eye2"):
        return x
    return mk("T", (x,))


def tup(ts):
    return mk("tuple", ts)


# --- traversal -------------------------------------------------------------------
def subterms(t, through_mu=True, seen=None, stop=None):
    """All subterms (each once), following mu init/next."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if stop is not None and stop(x):
            continue
        stack.extend(children(x))
        if x.op == "mu" and through_mu:
            inf = MU[x.data]
            stack.append(inf["init"])
            if inf["next"] is not None:
                stack.append(inf["next"])


def contains(t, sub):
    return any(x is sub for x in subterms(t))


def subst(t, mapping, memo=None):
    """Rebuild t with terms replaced (does not enter mu)."""
    memo = {} if memo is None else memo

    def go(x):
        if x in mapping:
            return mapping[x]
        if x in memo:
            return memo[x]
        if not x.args and not x.kw:
            memo[x] = x
            return x
        a = [go(y) for y in x.args]
        k = tuple((n, go(v)) for n, v in x.kw)
        if all(p is q for p, q in zip(a, x.args)) and all(p[1] is q[1] for p, q in zip(k, x.kw)):
            r = x
        else:
            r = rebuild(x, a, k)
        memo[x] = r
        return r

    return go(t)


_BIN = {"add", "sub", "mul", "div", "floordiv", "mod", "pow", "lt", "le", "eq", "ne",
        "and", "or", "xor", "matmul", "maximum", "minimum"}


def rebuild(x, a, k):
    if x.op in _BIN and len(a) == 2 and not k:
        return binop(x.op, a[0], a[1])
    if x.op == "neg":
        return neg(a[0])
    if x.op == "phi":
        return phi(*a)
    if x.op == "T" and len(a) == 1:
        return transpose(a[0])
    if x.op == "not":
        return lnot(a[0])
    if x.op == "band":
        return land(*a)
    if x.op == "bor":
        return lor(*a)
    if x.op == "strcat":
        return strcat(a)
    return mk(x.op, a, k, x.data)
