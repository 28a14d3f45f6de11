from .base import *
from .tools import *
from sa.values import *
from sa.normal import norm, items, num
from sa.shapes import Shapes

ID, TITLE = "C26", "Loading distances minimise over every relabelling of latents"
RULE = ("Term analysis of both permutation distances with symbolic matrices: the result must be the argument and value of one minimisation (min with key, or a best-so-far loop) "
        "over itertools.permutations of range(number of predicted latents), unrestricted; the minimised term must be, in normal form, the sum of squared entries of "
        "predicted[perm] - padded (absolute values of both in the abs variant), where padded is a floating zero matrix of the predicted shape holding the true loadings in its "
        "first rows; the returned permutation must be the loop element itself.")
ASSUMES = ["the predicted graph has at least as many latents as the true one"]
TECHNIQUE = "abstract interpretation to expression terms + minimisation-pattern recognition + algebraic normal forms"
FS = [("medil.evaluate.min_perm_squared_l2_dist", False), ("medil.evaluate.min_perm_squared_l2_dist_abs", True)]
_W = "medil/evaluate.py"
WITNESSES = [
    ("medil/evaluate.py", "    perms = itertools.permutations(range(len(predicted_W)))", "    perms = itertools.combinations(range(len(predicted_W)), len(predicted_W))"),
    (_W, "min(pairs, key=lambda pair: pair[1])\n\n    return np.array(opt_perm), min_dist\n\n", "max(pairs, key=lambda pair: pair[1])\n\n    return np.array(opt_perm), min_dist\n\n"),
    (_W, "perms = itertools.permutations(range(len(predicted_W)))", "perms = itertools.permutations(range(num_latents))"),
    (_W, "perms = itertools.permutations(range(len(predicted_W)))", "perms = itertools.islice(itertools.permutations(range(len(predicted_W))), 1000)"),
    (_W, "zeros = np.zeros_like(predicted_W, float)", "zeros = np.zeros_like(predicted_W)"),
    (_W, "zeros = np.zeros_like(predicted_W, float)", "zeros = np.zeros_like(predicted_W, np.float16)"),
    (_W, "np.sum((predicted_W[perm] - true_W) ** 2)", "np.sum((predicted_W[:, perm] - true_W) ** 2)"),
    (_W, "zeros = np.zeros_like(predicted_W, float)", "zeros = np.ones_like(predicted_W, float)"),
    (_W, "(np.abs(predicted_W[perm]) - np.abs(true_W)) ** 2", "(np.abs(predicted_W[perm]) - true_W) ** 2"),
    (_W, "(predicted_W[perm] - true_W) ** 2", "np.abs(predicted_W[perm] - true_W)"),
    (_W, "(predicted_W[perm] - true_W) ** 2", "(predicted_W[perm] - true_W[perm]) ** 2"),
    (_W, "return np.array(opt_perm), min_dist", "return np.argsort(opt_perm), min_dist"),
    (_W, "(np.abs(predicted_W[perm]) - np.abs(true_W)) ** 2", "np.abs(predicted_W[perm] - true_W) ** 2"),
    (_W, "    return np.array(opt_perm), min_dist\n\n\n", "    return np.array(opt_perm), perm_squared_l2_dist(range(len(predicted_W)))\n\n\n"),
    (_W, "key=lambda pair: pair[1])", "key=lambda pair: pair[0])"),
    (_W, "key=lambda pair: pair[1])", "key=lambda pair: int(pair[1]))"),
    (_W, "    zeros[:num_latents] = true_W\n    true_W = zeros\n", ""),
]


def bare(t):
    while True:
        if t.op in ("array", "asarray", "copyof", "tuple", "list", "float", "item") and len(t.args) == 1 and t.args[0].op not in ("many",):
            t = t.args[0]
        elif t.op in ("list", "tuple", "array") and len(t.args) == 1 and t.args[0].op == "many" and len(t.args[0].args) == 2 and t.args[0].args[0].op == "elem" \
                and t.args[0].args[0].args[0] is t.args[0].args[1] and t.args[0].data != "maybe":
            t = t.args[0].args[1]
        elif t.op == "astype" and len(t.args) == 2:
            t = t.args[0]
        else:
            return t


def selection(cx, t):
    """(perm term, dist term, key term, source, 'min'/'max') of a returned pair, or None"""
    if t.op not in ("tuple", "list") or len(t.args) != 2:
        return None
    p, d = bare(t.args[0]), t.args[1]
    while d.op in ("float", "item", "asarray") and d.args:
        d = d.args[0]
    if p.op in ("minby", "maxby"):
        if d.op == p.op and d.args[2] is p.args[2]:
            return p.args[0], d.args[0], p.args[1], p.args[2], p.op[:3]
        return p.args[0], T.subst(d, {p: p.args[0]}), p.args[1], p.args[2], p.op[:3]      # distance recomputed at the selected permutation
    if p.op in ("argsort", "getitem") and any(x.op in ("minby", "maxby") for x in T.subterms(p, True)):
        x = next(x for x in T.subterms(p, True) if x.op in ("minby", "maxby"))
        return p, d, x.args[1], x.args[2], x.op[:3]
    if p.op == "mu" and d.op == "mu" and T.MU[p.data]["loop"] == T.MU[d.data]["loop"]:
        P, D = T.MU[p.data], T.MU[d.data]
        a, b = P["next"], D["next"]
        if a.op == b.op == "phi" and len(a.args) == len(b.args) == 3:
            if a.args[0] is not b.args[0]:
                return None
            c, new, keep = b.args
            pn, pk = a.args[1], a.args[2]
            if keep is not d and new is d:
                c, new, keep, pn, pk = mk("not", (c,)), keep, new, pk, pn
            if keep is d and pk is p:
                neg = False
                while c.op == "not":
                    c, neg = c.args[0], not neg
                if c.op in ("lt", "le") and len(c.args) == 2:
                    x, y = c.args
                    how = "min" if y is d else "max" if x is d else None
                    if how is None:
                        return None
                    if neg:
                        how = {"min": "max", "max": "min"}[how]
                    src = cx.eng.loopiter.get(P["loop"])
                    z = D["init"]
                    start = z.op == "inf" or z.op == "const" and T.cval(z) == float("inf")
                    return pn, new, x if y is d else y, src, how if start or how == "max" else None
    return None


def source(cx, src):
    """the iterated permutations, through maps and lists"""
    seen = set()
    while src is not None and src.op not in ("permutations",) and src not in seen:
        seen.add(src)
        if src.op in ("map", "list", "tuple", "gen", "iter"):
            a = src.args[-1]
            if a.op == "many":
                if a.data == "maybe":
                    return src
                a = a.args[1] if len(a.args) == 2 else None
            src = a
        else:
            return src
    return src


def check(cx):
    for f, ab in FS:
        if cx.has(f):
            one(cx, f, ab)


def dtype_of(t):
    kw = dict(t.kw)
    return kw.get("dtype", t.args[2] if len(t.args) > 2 else None)


def padded(cx, sh, t, A, B):
    """(verdict, reason) for t being B padded with zero rows to A's shape, without loss of precision"""
    t = bare(t) if t.op != "astype" else t
    if t is B:
        return False, "the true loadings are not padded to the number of predicted latents"
    if t.op == "astype":
        d = str(t.args[1])
        if any(y in d for y in ("float16", "float32", "half", "single")):
            return False, "converted to fewer digits"
        return (False, "converted to integers") if "int" in d else padded(cx, sh, t.args[0], A, B)
    if t.op == "store" and len(t.args) == 3:
        base, idx, v = t.args
        if base.op == "full":
            z = num(base.args[1])
            if z != 0:
                return (None if z is None else False), "padding rows are not zero"
            if sh.shape(base) != sh.shape(A):
                return None, f"padded matrix has shape {base.args[0]}"
            d = dtype_of(base)
            if d is not None and any(y in str(d) for y in ("float16", "float32", "half", "single", "bfloat16")):
                return False, "the padded matrix holds fewer digits than the true loadings"
            if d is not None and "float" not in str(d) and "double" not in str(d):
                if str(d).find("dtype") >= 0 and A in T.subterms(d, True):
                    return False, "the padded matrix takes the predicted matrix's data type, so an integer prediction truncates the true loadings"
                if d.op == "dtype" and B in T.subterms(d, True):
                    pass
                elif T.is_const(d) and "int" in str(d):
                    return False, "the padded matrix holds integers"
                else:
                    return None, f"data type {d}"
        else:
            return None, "stored into something else"
        if idx.op == "tuple" and idx.args and all(i.op == "slice" and all(is_c(z, None) for z in i.args) for i in idx.args[1:]):
            idx = idx.args[0]
        if idx.op != "slice" or not (is_c(idx.args[0], None) or is_c(idx.args[0], 0)) or not is_c(idx.args[2], None):
            return None, f"stored at {idx}"
        if sh.poly(idx.args[1]) != sh.poly(cx.eng.lib.dim(B, 0)):
            return None, f"stored in rows up to {idx.args[1]}"
        while v.op in ("asarray", "copyof"):
            v = v.args[0]
        return (True, "zero-padded in floating point") if v is B else (None if opaque_in(v) else False, "the true loadings are changed before padding")
    if t.op in ("vstack", "concat", "concatenate", "row_stack"):
        xs = list(t.args[0].args) if len(t.args) == 1 and t.args[0].op in ("list", "tuple") else list(t.args)
        xs = [bare(x) for x in xs]
        if len(xs) == 2 and xs[0] is B and xs[1].op == "full" and num(xs[1].args[1]) == 0:
            return True, "zero-padded"
    return None, f"form of the padded matrix not known: {t.op}"


def one(cx, f, ab):
    box = {}

    def go(_):
        p, q = cx.p("predicted", "ndarray", 2, nonempty=True), cx.p("true", "ndarray", 2, nonempty=True)
        box["A"], box["B"] = cx.eng.term(p), cx.eng.term(q)
        return cx.call(f, p, q)
    name = f.rsplit(".", 1)[1]
    r = cx.run(name, go)
    if r is None or r.st is None:
        cx.und("minimum-over-permutations", name, None, "no result")
        return
    t = r.term()
    loc = next((l for l in t.locs if l), None)
    A, B = box["A"], box["B"]
    sh = Shapes(cx.eng, {}, {})
    s = selection(cx, t)
    if s is None:
        free = [x for x in T.subterms(t, True) if x.op in ("elem", "minby", "maxby", "mu", "linear_sum_assignment") or opaque_in(x)]
        dark = bool(free) or opaque_in(t)
        cx.put(None if dark else False, "minimum-over-permutations", name, loc, "selection of the best permutation not recognised" if dark else "no minimisation over permutations")
        return
    perm, dist, key, src, how = s
    cx.put(True if how == "min" else None if how is None else False, "minimum-over-permutations", f"{name}: direction", loc, "the smallest distance is selected" if how == "min" else "the largest distance is selected" if how else "start of the search not understood")
    e = source(cx, src)
    if e is not None and e.op == "permutations":
        inner = e.args[0]
        n = inner.args[0] if inner.op == "range" and len(inner.args) == 1 else inner.args[1] if inner.op == "range" and len(inner.args) == 2 and is_c(inner.args[0], 0) else inner.args[0] if inner.op == "arange" and len(inner.args) == 1 else None
        full = n is not None and sh.poly(n) == sh.poly(cx.eng.lib.dim(A, 0))
        if len(e.args) > 1 and not (is_c(e.args[1], None) or sh.poly(e.args[1]) == sh.poly(cx.eng.lib.dim(A, 0))):
            full = False
        cx.put(True if full else None if n is None else False, "minimum-over-permutations", f"{name}: all", loc, "every permutation of the predicted latents is tried" if full else f"permutations of {inner} are tried, not of all predicted latents")
    else:
        part = e is not None and any(x.op == "permutations" for x in T.subterms(e, True)) and (e.op in ("getitem", "np:islice", "islice", "filter", "list", "gen") or e.op.endswith("islice"))
        other = e is not None and e.op in ("combinations", "product", "range", "list", "tuple") and not opaque_in(e)
        part = part or e is not None and e.op == "itertools" and e.data[0].startswith("combinations")      # in one order only
        cx.put(False if part or other else None, "minimum-over-permutations", f"{name}: all", loc, f"the candidates are {str(e)[:60]}, not every permutation")
    same = key is dist or norm(key) is norm(dist)
    cx.put(True if same else None if opaque_in(key) or opaque_in(dist) else False, "permutation-attains-distance", f"{name}: key", loc, "the returned distance is the minimised one" if same else "the returned distance is not the quantity that is minimised")
    q = bare(perm)
    elem = q.op == "elem" and q.args and (q.args[0] is e or q.args[0] is src)
    cx.put(True if elem else None if opaque_in(perm) or q.op == "elem" else False, "permutation-attains-distance", f"{name}: permutation", loc, "the returned permutation is the selected one" if elem else f"a transformed permutation ({q.op}) is returned")
    form(cx, name, ab, dist, A, B, sh, loc)


def rows(t, A):
    """is t A with its rows indexed by something?  returns the index"""
    if t.op == "getitem" and t.args[0] is A:
        i = t.args[1]
        if i.op == "tuple" and i.args and all(j.op == "slice" and all(is_c(z, None) for z in j.args) for j in i.args[1:]):
            i = i.args[0]
        return bare(i)
    if t.op == "take" and t.args[0] is A:
        return bare(t.args[1])
    return None


def form(cx, name, ab, dist, A, B, sh, loc):
    k = f"{name}: squared difference"
    dark = opaque_in(dist)

    def pre(x):
        if x.op in ("asarray", "copyof") and len(x.args) == 1:
            return norm(x.args[0], pre)
        if x.op == "getitem" and x.args[0].op == "abs":     # |X|[i] = |X[i]|
            return mk("abs", (norm(mk("getitem", (x.args[0].args[0], x.args[1])), pre),))
    n = norm(dist, pre)
    c = items(n)
    if len(c) == 1:
        n, w = next(iter(c.items()))
        if w < 0:
            cx.bad("squared-difference", k, loc, "the distance is the negative of a sum")
            return
    if n.op != "sum" or n.kw and not all(is_c(v, None) for _, v in n.kw):
        cx.put(False if n.op in ("norm", "mean", "max", "sqrt") and not dark else None, "squared-difference", k, loc, "the distance is not the sum of squared differences")
        return
    x = n.args[0]
    if x.op != "PROD" or len(x.args) != 2 or x.args[0] is not x.args[1]:
        # sum of per-entry forms other than a square
        cx.put(None if dark or x.op in ("many", "SUM", "getitem") else False, "squared-difference", k, loc, "the summed entries are not squared differences")
        return
    x = x.args[0]
    if x.op == "abs":
        if not ab:
            x = x.args[0]
        elif x.args[0].op == "SUM":
            cx.bad("sign-flip-irrelevant", k, loc, "the absolute value is taken of the difference, not of the loadings")
            return
    d = items(x)
    if len(d) != 2 or sorted(d.values()) != [-1, 1]:
        cx.put(None if dark else False, "squared-difference", k, loc, "not a difference of the predicted and the true loadings")
        return
    u, v = d
    got = {}
    for y in (u, v):
        isabs = y.op == "abs"
        z = y.args[0] if isabs else y
        side = "A" if any(q is A for q in val(z, A)) else "B"
        got[side] = (z, isabs)
    if set(got) != {"A", "B"}:
        cx.put(None if dark else False, "squared-difference", k, loc, "not a difference of the predicted and the true loadings")
        return
    (p, pa), (t, ta) = got["A"], got["B"]
    if ab:
        cx.put(True if pa and ta else None if dark else False, "sign-flip-irrelevant", k, loc, "both matrices enter by absolute value only" if pa and ta else "a loading's sign still matters")
    else:
        cx.put(True if not pa and not ta else False, "squared-difference", f"{k} (signed)", loc, "signed loadings are compared" if not pa and not ta else "signs of the loadings are dropped")
    i = rows(p, A)
    good = i is not None and i.op == "elem"
    if p.op == "getitem" and p.args[0] is A and p.args[1].op == "tuple" and len(p.args[1].args) == 2 and p.args[1].args[0].op == "slice" \
            and all(is_c(z, None) for z in p.args[1].args[0].args) and bare(p.args[1].args[1]).op == "elem":
        cx.bad("squared-difference", f"{k} (permuted)", loc, "the columns of the predicted loadings are permuted, not the latents")
        return
    cx.put(True if good else None if dark or i is not None or opaque_in(p) else False, "squared-difference", f"{k} (permuted)", loc, "rows of the predicted loadings are permuted" if good else "the predicted loadings are not permuted by rows")
    if rows(t, t.args[0] if t.args else t) is not None and any(y.op == "elem" for y in T.subterms(t.args[1], False)) and t.op in ("getitem", "take"):
        cx.bad("squared-difference", f"{k} (true loadings)", loc, "the true loadings are permuted as well")
        return
    v, why = padded(cx, sh, t.args[0] if t.op == "abs" else t, A, B)
    cx.put(v, "padded-without-loss", k, loc, why)


def val(t, A):
    """value-carrying subterms (sizes left out)"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in out or x.op in ("dim", "size", "len", "shape", "dtype", "elem"):
            continue
        out.add(x)
        todo += list(x.args)
    return out
