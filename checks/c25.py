from .base import *
from .tools import *
from sa.values import *
from sa.normal import norm, items, num, build
from sa.scalarpol import Polarity
from sa.rowinv import RowInv

ID, TITLE = "C25", "Structural distances are symmetric and ignore latent labels"
RULE = ("Term analysis of both returned distances. Symmetry: the normal forms for (a, b) and (b, a) agree after ordering commutative operands and the orientation of squared "
        "differences. Zero: substituting one graph for both arguments makes every difference vanish. Non-negativity: sign rules. Latent labels: a row-permutation analysis "
        "(rows permuted / columns permuted / invariant) must classify the result as invariant for either argument; equality and size facts only.")
ASSUMES = ["graphs are two-dimensional arrays of zeros and ones"]
TECHNIQUE = "abstract interpretation to expression terms + permutation-equivariance tags and algebraic normal forms"
F = "medil.evaluate.sfd"
WITNESSES = [
    ("medil/evaluate.py", "    wtd_ug = true_biadj.T @ true_biadj\n", "    wtd_ug = true_biadj.T @ predicted_biadj\n"),
    ("medil/evaluate.py", "((wtd_ug - wtd_ug_recon) ** 2).sum()", "(wtd_ug - wtd_ug_recon).sum()"),
    ("medil/evaluate.py", "((wtd_ug - wtd_ug_recon) ** 2).sum()", "((wtd_ug - wtd_ug_recon) ** 2).sum() / wtd_ug.sum()"),
    ("medil/evaluate.py", "np.logical_xor(ug, ug_recon)", "np.logical_and(ug, np.logical_not(ug_recon))"),
    ("medil/evaluate.py", "np.logical_xor(ug, ug_recon)", "(ug > ug_recon)"),
    ("medil/evaluate.py", "    ug = biadj_mat.T @ biadj_mat\n", "    ug = biadj_mat @ biadj_mat.T\n"),
    ("medil/evaluate.py", "((wtd_ug - wtd_ug_recon) ** 2).sum()", "((true_biadj - predicted_biadj) ** 2).sum()"),
    ("medil/evaluate.py", "np.logical_xor(ug, ug_recon)", "np.logical_or(ug, ug_recon)"),
    ("medil/evaluate.py", "ug_recon = recover_ug(predicted_biadj)", "ug_recon = recover_ug(predicted_biadj[1:])"),
    ("medil/evaluate.py", "np.logical_xor(ug, ug_recon), 1).sum()", "np.logical_xor(ug, ug_recon), 1).sum() - 1"),
]
NONNEG = {"xor", "not", "and", "or", "lt", "le", "eq", "ne", "gt", "ge", "any", "all", "count_nonzero", "abs", "len", "size", "dim"}


def canon(t, memo=None):
    """order commutative operands; orient squared differences"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    a = [canon(x, memo) for x in t.args]
    kw = tuple((n, canon(v, memo)) for n, v in t.kw)
    op = t.op
    if op in ("xor", "eq", "ne", "and", "or", "maximum", "minimum", "mul", "add", "bxor", "isclose"):
        a = sorted(a, key=lambda x: x.uid)
    if op in ("abs", "norm") and a and a[0].op == "SUM":
        a[0] = orient(a[0])
    if op == "SUM":
        r = build({x: c for x, c in zip(a, t.data)}) if len(set(a)) == len(a) else mk(op, a, kw, t.data)
    elif op == "PROD":
        n = {}
        for x in a:
            n[x] = n.get(x, 0) + 1
        out = []
        for x, k in n.items():
            y = orient(x) if k % 2 == 0 and x.op == "SUM" else x
            out += [y] * k
        r = mk("PROD", sorted(out, key=lambda x: x.uid), kw, t.data)
    else:
        r = mk(op, a, kw, t.data)
    memo[t] = r
    return r


def orient(s):
    d = items(s)
    k = min(d, key=lambda x: x.uid)
    return s if d[k] > 0 else build({x: -c for x, c in d.items()})


def zero(t):
    """True: identically zero; False: not; None: unknown"""
    c = num(t)
    if c is not None:
        return c == 0
    if T.is_const(t):
        return T.cval(t) is False or None
    op, a = t.op, t.args
    if op in ("xor", "ne", "lt", "gt", "bxor", "sub") and len(a) == 2 and a[0] is a[1]:
        return True
    if op == "not" and a[0].op in ("eq", "le", "ge", "isclose") and a[0].args[0] is a[0].args[1]:
        return True
    if op in ("sum", "mean", "triu", "tril", "abs", "astype", "any", "count_nonzero", "norm", "SCALED", "T", "getitem", "item", "toint", "int", "copyof", "asarray", "sqrt", "square", "max", "float"):
        return zero(a[0])
    if op == "matmul" and num_free(t):
        return False
    if op in ("PROD", "and", "matmul"):
        zs = [zero(x) for x in a]
        return True if True in zs else None if None in zs else False
    if op in ("SUM",):
        zs = [zero(x) for x in a]
        return True if all(zs) else None
    if op in ("full",):
        return zero(a[1]) if len(a) > 1 else None
    if op == "param":
        return False
    if op == "store" and len(a) == 3:
        z = zero(a[0])
        return True if z and zero(a[2]) else False if z is False and a[1].op == "diagidx" else None
    if op in ("or", "matmul"):
        zs = [zero(x) for x in a]
        return True if all(z is True for z in zs) else False if False in zs else None
    return None


def num_free(t):
    """a Gram matrix of a graph: not identically zero off the diagonal"""
    x, y = (z.args[0] if z.op == "astype" else z for z in t.args)
    if x.op == "T":
        x = x.args[0]
    elif y.op == "T":
        y = y.args[0]
    else:
        return False
    x, y = (z.args[0] if z.op == "astype" else z for z in (x, y))
    return x is y and x.op == "param"


class Sign(Polarity):
    def __init__(self):
        super().__init__(lambda t: None, lambda t: False)

    def sign(self, t):
        if t.op in NONNEG:
            return 1
        if t.op in ("triu", "tril", "astype", "toint", "int", "tofloat", "float", "copyof", "asarray", "max") and t.args:
            return self.sign(t.args[0])
        return super().sign(t)


def parts(r):
    t = r.term()
    return list(t.args) if t.op == "tuple" else [t]


def check(cx):
    if not cx.has(F):
        return
    G = {"a": None, "b": None}

    def call(x, y):
        def go(_):
            p, q = cx.p(x, "ndarray", 2, nonempty=True), cx.p(y, "ndarray", 2, nonempty=True)
            G[x], G[y] = cx.eng.term(p), cx.eng.term(q)
            return cx.call(F, p, q)
        return go
    r1 = cx.run("sfd(a, b)", call("a", "b"))
    r2 = cx.run("sfd(b, a)", call("b", "a"))
    r3 = cx.run("sfd(a, a)", call("a", "a"))
    if r1 is None or r2 is None or r3 is None or r1.st is None or r2.st is None:
        cx.und("symmetric", F, None, "no result")
        return
    A, B, Z = parts(r1), parts(r2), parts(r3)
    names = ["sfd", "ushd"] if len(A) == 2 else [str(i) for i in range(len(A))]
    if not len(A) == len(B) == len(Z):
        cx.und("symmetric", F, None, "results of different shape")
        return
    for n, x, y, z in zip(names, A, B, Z):
        loc = next((l for l in x.locs if l), None)
        nx, ny, nz = canon(norm(x)), canon(norm(y)), norm(z)
        dark = opaque_in(x)
        cx.put(True if nx is ny else None if dark or looped(x) else asym(nx, ny), "symmetric", n, loc, "same expression with the arguments exchanged" if nx is ny else "exchanging the two graphs changes the distance")
        s = Sign().sign(nx)
        cx.put(True if s == 1 else False if s == -1 or (s is None and not dark and signed(nx)) else None, "non-negative", n, loc, "non-negative by sign rules" if s == 1 else "can be negative")
        zz = zero(nz)
        cx.put(True if zz else None if dark or looped(z) else zz, "zero-on-equal", n, loc, "vanishes when both arguments are the same graph" if zz else "does not vanish for equal graphs")
        for p, who in (("a", "first"), ("b", "second")):
            tag = RowInv(cx.eng, G[p]).tag(norm(x))
            cx.put(True if tag == "I" else False if tag in ("D", "R", "C", "RC") and not dark else None, "latent-order-irrelevant", f"{n}: {who} argument", loc,
                   "reordering its latents changes nothing" if tag == "I" else f"depends on the order of the latents of the {who} graph" if tag else "effect of reordering not understood")


def looped(t):
    return any(x.op == "mu" for x in T.subterms(t, True))


def signed(t):
    """a sum of a difference that is not squared or made absolute"""
    if t.op in ("sum", "mean", "triu", "tril", "item", "astype") and t.args:
        return signed(t.args[0])
    if t.op == "SUM":
        return len({c > 0 for c in items(t).values()}) > 1
    if t.op == "PROD" and len(set(t.args)) == 1 and len(t.args) % 2:
        return signed(t.args[0])
    if t.op == "pow" and num(t.args[1]) is not None and num(t.args[1]) % 2 == 1:
        return signed(t.args[0])
    return False


def asym(x, y):
    """are two different normal forms surely different functions?  The operations on the path to the first difference must be injective enough to tell."""
    known = {"sum", "mean", "triu", "tril", "PROD", "SUM", "SCALED", "xor", "and", "or", "not", "lt", "le", "eq", "ne", "matmul", "T", "astype", "store", "param", "const", "abs", "norm",
             "diagidx", "RECIP", "maximum", "minimum", "any", "all", "count_nonzero", "getitem", "slice", "dim", "array", "copyof", "asarray", "sqrt", "full", "invert", "pow", "cumsum"}
    return False if all(z.op in known for z in T.subterms(x, True)) else None
