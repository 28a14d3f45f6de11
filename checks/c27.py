from .base import *
from .tools import *
from sa.values import *

ID, TITLE = "C27", "Xi correlation depends on the data only through ranks"
RULE = ("Provenance analysis of the returned correlation and p-value (with and without tie correction): every occurrence of a sample's values must lie under a rank "
        "transformation (rankdata, argsort) applied to the sample itself, flattened or negated; sizes are free. Path analysis: under the condition that the sizes differ every "
        "path must end in raise ValueError before anything is computed; when a sample is empty the returned values must be NaN, and only then.")
ASSUMES = ["rankdata and argsort depend only on the order of their argument's elements"]
TECHNIQUE = "abstract interpretation to expression terms + provenance (rank-only) classification + guarded-path enumeration"
X = "medil.independence_testing.xicorr"
_F = "medil/independence_testing.py"
WITNESSES = [
    (_F, 'PI = rankdata(x, method="average")', "PI = np.abs(x)"),
    (_F, 'fr = rankdata(y, method="average") / n', "fr = y / n"),
    (_F, 'fr = rankdata(y, method="average") / n', 'fr = rankdata(np.round(y, 6), method="average") / n'),
    (_F, 'gr = rankdata(-y, method="average") / n', "gr = (y.max() - y) / n"),
    (_F, "    cu = np.mean(gr * (1 - gr))", "    cu = np.mean(gr * (1 - gr)) + 1e-12 * np.var(y)"),
    (_F, "        qfr = np.sort(fr)", "        qfr = np.sort(y / y.max())"),
    (_F, "    if x.size != y.size:\n        raise ValueError", "    if x.size > y.size:\n        raise ValueError"),
    (_F, "    if x.size != y.size:\n        raise ValueError", "    if True:\n        raise ValueError"),
    (_F, "    if x.size != y.size:\n        raise ValueError", "    if x.size <= 100 or x.size != y.size:\n        raise ValueError"),
    (_F, "    if x.size != y.size:\n        raise ValueError", "    if x.size != y.size:\n        raise TypeError"),
    (_F, "        return XiCorrResult(np.nan, np.nan)", "        return XiCorrResult(0.0, 1.0)"),
    (_F, "    elif not x.size or not y.size:", "    elif x.size == 1:"),
    (_F, "    elif not x.size or not y.size:", "    elif x.size or not y.size:"),
    (_F, "    elif not x.size or not y.size:", "    elif x.size < 30:"),
    (_F, "    x = np.asarray(x).ravel()\n", "    x = np.asarray(x).ravel().astype(np.float16)\n"),
    (_F, 'gr = rankdata(-y, method="average") / n', 'gr = rankdata(1 / y, method="average") / n'),
]
RANK = {"rankdata", "argsort"}
SIZES = {"size", "dim", "len", "shape", "ndim"}
KEEP = {"ravel", "reshape", "asarray", "array", "copyof", "T", "squeeze", "flatten", "list", "tuple"}


def same_order(t, s):
    """t is the sample s up to an order-preserving or -reversing map that keeps ties: True / False / None"""
    while True:
        if t is s:
            return True
        if t.op in KEEP and t.args and t.args[0].op != "many":
            t = t.args[0]
        elif t.op == "neg":
            t = t.args[0]
        elif t.op == "astype":
            d = str(t.args[1])
            if d.strip("'") in ("float", "float64", "np.float64", "double") or "float64" in d:
                t = t.args[0]
            else:
                return False if any(w in d for w in ("int", "bool", "float16", "float32")) else None
        elif t.op in ("getitem",) and s in T.subterms(t, True):
            return None
        elif t.op in RANK:
            return True if same_order(t.args[0], s) else None
        else:
            break
    if t.op in ("round", "floor", "ceil", "abs", "sign", "pow", "square", "trunc", "clip", "np:round", "np:around", "np:floor", "np:clip", "lt", "le", "floordiv", "mod"):
        return False
    if t.op == "div" and s in T.subterms(t.args[1], True):
        return False                    # 1/y is not monotone across zero
    return None


def occurrences(t, s):
    """[(verdict, term)] for each place where the values of s enter t"""
    out, seen = [], set()

    def go(x, up):
        if x in seen or x.op in SIZES:
            return
        if x.op in RANK and x.args and s in T.subterms(x.args[0], True):
            v = same_order(x.args[0], s)
            if v is not None or not any(y.op in RANK for y in T.subterms(x.args[0], True)):
                seen.add(x)
                out.append((v, x))
                return
        if x.op in ("nonzero", "unique"):
            pass
        if x is s:
            out.append((False, up))
            return
        seen.add(x)
        if x.op == "mu":
            go(T.MU[x.data]["init"], x)
            go(T.MU[x.data]["next"], x)
        for y in T.children(x):
            go(y, x)
    go(t, t)
    return out


def check(cx):
    if not cx.has(X):
        return
    ties = [p.arg for p in cx.lookup(X).node.args.args] if hasattr(cx.lookup(X), "node") else ["x", "y", "ties"]
    modes = [("ties", True), ("no ties", False)] if len(ties) > 2 else [("default", None)]
    for name, flag in modes:
        box = {}

        def go(_):
            x, y = cx.p("x", "ndarray", 1), cx.p("y", "ndarray", 1)
            box["x"], box["y"] = cx.eng.term(x), cx.eng.term(y)
            return cx.call(X, x, y) if flag is None else cx.call(X, x, y, ConstV(flag))
        r = cx.run(f"xicorr ({name})", go)
        if r is None or r.st is None:
            e = next((e for e in (r.ev("raise") if r is not None else ()) if not e.pc and e.d.get("exc") == "ValueError"), None)
            if e is not None:
                cx.bad("equal-lengths-accepted", f"{name}: equal lengths", e.loc, "every pair of samples is rejected")
                continue
            cx.und("rank-only", name, None, "no result")
            continue
        t = r.term()
        loc = next((l for l in t.locs if l), None)
        for s in ("x", "y"):
            rank(cx, name, s, box[s], t, loc)
        unequal(cx, name, r, box)
        empty(cx, name, r, t, box, loc)
        defined(cx, name, r, box)
    for test in ("medil.independence_testing.xicor_test",):
        if cx.has(test):
            wrapper(cx, test)


def rank(cx, name, s, sample, t, loc):
    occ = occurrences(t, sample)
    for v, x in occ:
        l = next((l for l in x.locs if l), loc)
        cx.put(v if v is not None or not opaque_in(x) else None, "rank-only", f"{name}: {s} in {x.op}", l, f"{s} enters through its ranks" if v else f"the values of {s}, not only their ranks, determine the result ({x.op})")
    if not occ:
        cx.put(None if opaque_in(t) else False, "rank-only", f"{name}: {s}", loc, f"{s} does not enter the result")


def differ(c, x, y):
    """does a condition hold whenever sizes differ? (True), or equal sizes when negated"""
    if c.op in ("ne", "eq") and len(c.args) == 2:
        a, b = c.args
        if is_size(a, x) and is_size(b, y) or is_size(a, y) and is_size(b, x):
            return c.op
    if c.op == "not":
        d = differ(c.args[0], x, y)
        return {"ne": "eq", "eq": "ne"}.get(d)
    return None


def is_size(t, s):
    if t.op == "getitem" and t.args[0].op == "shape":
        t = mk("size", (t.args[0].args[0],))
    if t.op == "shape":
        t = mk("size", t.args)
    if t.op not in ("size", "len", "dim") or not t.args:
        return False
    b = t.args[0]
    while b.op in KEEP and b.args:
        b = b.args[0]
    return b is s


def implied(pc, x, y):
    """eq / ne when a path condition fixes how the sizes compare"""
    for c in pc:
        cs = [c]
        while cs:
            z = cs.pop()
            if z.op in ("band", "and"):
                cs += z.args
            d = differ(z, x, y)
            if d:
                return d
    return None


def unequal(cx, name, r, box):
    x, y = box["x"], box["y"]
    for e in r.ev("raise"):
        vs = [[holds_empty(c, x, y, n) for c in e.pc] for n in (50, 10**6)]
        if any(all(b is True for b in v) for v in vs):
            cx.bad("equal-lengths-accepted", f"{name}: equal lengths", e.loc, "samples of one ordinary length are rejected")
            return
    k = f"{name}: unequal lengths"
    rs = [e for e in r.ev("raise") if implied(e.pc, x, y) == "ne"]
    good = [e for e in rs if e.d.get("exc") == "ValueError"]
    rets = [e for e in r.ev("return") if e.d.get("qual") == X]
    loose = [e for e in rets if implied(e.pc, x, y) != "eq"]
    sized = any(implied(e.pc, x, y) is None and any(z.op in SIZES for c in e.pc for z in T.subterms(c, True)) for e in loose)
    if good and not loose:
        cx.ok("unequal-lengths-rejected", k, good[0].loc, "ValueError on every path with different sizes")
    elif rs and not good:
        cx.bad("unequal-lengths-rejected", k, rs[0].loc, f"{rs[0].d.get('exc')} is raised instead of ValueError")
    elif rets and not good and not any(e.kind == "libcall" and "size" in str(e.d) for e in r.events):
        exact = all(understood(c) for e in loose for c in e.pc)
        cx.put(False if exact else None, "unequal-lengths-rejected", k, loose[0].loc if loose else None, "samples of different lengths are not rejected with ValueError")
    else:
        cx.put(None, "unequal-lengths-rejected", k, loose[0].loc if loose else None, "some path is not guarded by the comparison of sizes" if sized else "not understood")


def understood(c):
    return all(z.op in ("eq", "ne", "lt", "le", "gt", "ge", "not", "band", "bor", "size", "dim", "len", "shape", "param", "const", "getitem", "ravel", "asarray", "tuple",
                        "phi", "slice", "minimum", "min", "maximum", "max") for z in T.subterms(c, True))


def holds_empty(c, x, y, n=0):
    """value of a condition when both samples are empty (have n values): True/False/None"""
    if c.op == "const":
        return bool(T.cval(c))
    if c.op == "not":
        v = holds_empty(c.args[0], x, y, n)
        return None if v is None else not v
    if c.op in ("band", "and", "bor", "or"):
        vs = [holds_empty(a, x, y, n) for a in c.args]
        if c.op in ("band", "and"):
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c.op in ("eq", "ne", "lt", "le", "gt", "ge") and len(c.args) == 2:
        v = []
        for a in c.args:
            if is_size(a, x) or is_size(a, y):
                v.append(n)
            elif T.is_const(a) and isinstance(T.cval(a), (int, float)):
                v.append(T.cval(a))
            elif a.op in ("minimum", "maximum", "min", "max", "mul") and all(is_size(b, x) or is_size(b, y) for b in a.args):
                v.append(n ** len(a.args) if a.op == "mul" else n)
            else:
                return None
        a, b = v
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c.op]
    if c.op == "phi" and len(c.args) == 3:
        v = holds_empty(c.args[0], x, y, n)
        return None if v is None else holds_empty(c.args[1 if v else 2], x, y, n)
    if is_size(c, x) or is_size(c, y):
        return n > 0
    return None


def empty(cx, name, r, t, box, loc):
    x, y = box["x"], box["y"]
    k = f"{name}: empty"
    hit = []
    for e in r.ev("return"):
        if e.d.get("qual") != X:
            continue
        vs = [holds_empty(c, x, y) for c in e.pc]
        v = False if False in vs else None if None in vs else True
        if v is not False:
            hit.append((v, e))
    for e in r.ev("raise"):
        vs = [holds_empty(c, x, y) for c in e.pc]
        if all(v is True for v in vs) and vs:
            cx.bad("empty-gives-NaN", k, e.loc, "empty samples raise an error")
            return
    if not hit:
        cx.und("empty-gives-NaN", k, loc, "path for empty samples not found")
        return
    for v, e in hit:
        z = r.term(e.d["value"]) if not isinstance(e.d["value"], T.Term) else e.d["value"]
        nan = z.op in ("tuple", "list") and z.args and all(is_nan(a) for a in z.args)
        comp = z.op in ("tuple", "list") and z.args and (any(T.is_const(a) and not is_nan(a) for a in z.args) or any(a.op in ("sub", "div", "dist.cdf") for a in z.args))
        cx.put(True if nan and v else None if v is None else False if comp else None, "empty-gives-NaN", k, e.loc, "returns NaN for empty samples" if nan else "empty samples are not answered with NaN")


def defined(cx, name, r, box):
    """samples of equal, ordinary length are never answered with NaN because of their length"""
    x, y = box["x"], box["y"]
    k, seen = f"{name}: not empty", None
    for e in r.ev("return"):
        if e.d.get("qual") != X:
            continue
        z = r.term(e.d["value"]) if not isinstance(e.d["value"], T.Term) else e.d["value"]
        if not (z.op in ("tuple", "list") and z.args and any(is_nan(a) for a in z.args)):
            continue
        vs = [[holds_empty(c, x, y, n) for c in e.pc] for n in (2, 50, 10**6)]
        if any(v and all(b is True for b in v) for v in vs) or not e.pc:
            cx.bad("empty-gives-NaN", k, e.loc, "samples that are not empty are answered with NaN")
            return
        if not all(False in v for v in vs):
            seen = e
    if seen:
        cx.und("empty-gives-NaN", k, seen.loc, "NaN is returned under a condition that was not understood")
    else:
        cx.ok("empty-gives-NaN", k, None, "NaN is returned for empty samples only")


def is_nan(a):
    return a.op == "nan" or T.is_const(a) and isinstance(T.cval(a), float) and T.cval(a) != T.cval(a)


def wrapper(cx, test):
    box = {}

    def go(_):
        x, y = cx.p("x", "ndarray", 1), cx.p("y", "ndarray", 1)
        box["x"], box["y"] = cx.eng.term(x), cx.eng.term(y)
        return cx.call(test, TupV([x, y]))
    r = cx.run("xicor_test", go)
    if r is None or r.st is None:
        return
    t = r.term()
    loc = next((l for l in t.locs if l), None)
    for s in ("x", "y"):
        rank(cx, "xicor_test", s, box[s], t, loc)
