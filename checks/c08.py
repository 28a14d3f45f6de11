from .base import *
from .tools import *
from sa.ranges import Ranges
from sa.regions import Regions

ID, TITLE = "C08", "Parallel independence tests land on the pair they belong to"
RULE = ("Provenance analysis of the pairwise test results: the index streams from which the two tested columns of each worker task are drawn are "
        "compared with the index streams of the positions its result is stored at; result order must be preserved between the task iterator and the store "
        "(ordered pool method, no reordering in between); both mirrored regions hold the value; index streams enumerate the strict triangle once. "
        "Effect analysis of worker bodies (no writes to module state, no shared generator) and scope analysis of the pool (used and consumed "
        "only inside a scope that releases it on every exit).")
ASSUMES = ["Pool.map, imap and starmap yield results in task order, imap_unordered does not"]
WITNESSES = [
    ("medil/independence_testing.py", "p.imap(test,", "p.imap_unordered(test,"),
    ("medil/independence_testing.py", "zipped = zip(idxs, jdxs)", "zipped = zip(*np.tril_indices(num_feats, -1))"),
    ("medil/independence_testing.py", "zipped = zip(idxs, jdxs)", "zipped = zip(idxs, idxs)"),
    ("medil/independence_testing.py", "zipped = zip(idxs, jdxs)", "zipped = zip(*np.tril_indices(num_feats, -1)[::-1])"),
    ("medil/independence_testing.py", "zipped = zip(idxs, jdxs)", "zipped = zip(idxs[::-1], jdxs[::-1])"),
    ("medil/independence_testing.py", "idxs, jdxs = np.triu_indices(num_feats, 1)", "idxs, jdxs = np.triu_indices(num_feats, 2)"),
    ("medil/independence_testing.py", "p_vals[idxs, jdxs] = p_vals[jdxs, idxs] =", "p_vals[idxs, jdxs] ="),
    ("medil/independence_testing.py", "p_vals[idxs, jdxs] = p_vals[jdxs, idxs] =", "tested ="),
    ("medil/independence_testing.py", "np.triu_indices(num_feats, 1)", "np.triu_indices(1, num_feats)"),
    ("medil/independence_testing.py", "        with Pool(max(1, int(0.75 * cpu_count()))) as p:\n", "        p = Pool(max(1, int(0.75 * cpu_count())))\n        if True:\n"),
]
KEEP = {"fromiter", "array", "asarray", "list", "tuple", "copy", "astype", "ravel", "flatten", "round", "float", "copyof", "clip", "maximum", "minimum"}
REORDER = {"sort", "sorted", "flip", "reversed", "roll", "draw", "argsort", "unique", "set"}


class Reordered(Exception):
    pass


def tri(base):
    """('U'|'L', side, k) of triu/tril_indices"""
    k = base.args[1] if len(base.args) > 1 else const(0)
    return ("U" if base.op == "triu_indices" else "L", base.args[0], cval(k) if isnum(k) else k)


def label(x):
    """which index stream a scalar index comes from"""
    if x.op == "elem":
        s = x.args[0]
        while s.op in ("iter", "list", "tolist", "asarray", "copy", "array", "enumerate1") and s.args:
            s = s.args[0]
        if s.op in REORDER or (s.op == "getitem" and s.args[1].op == "slice"):
            return ("reordered", s)
        if s.op == "getitem" and s.args[0].op in ("triu_indices", "tril_indices") and isnum(s.args[1]):
            return tri(s.args[0]) + (cval(s.args[1]),)
        return x
    if x.op == "getitem" and x.args[0].op == "elem" and isnum(x.args[1]):
        s = x.args[0].args[0]
        while s.op in ("iter", "list", "tuple") and len(s.args) == 1:
            s = s.args[0]
        if s.op == "combinations" and len(s.args) == 2 and is_c(s.args[1], 2):
            r = s.args[0]
            while r.op in ("list", "tuple", "iter") and len(r.args) == 1:
                r = r.args[0]
            if r.op in ("range", "arange"):
                return ("U", r.args[-1] if len(r.args) < 2 or is_c(r.args[0], 0) else r, 1, cval(x.args[1]))
    return x


def streamlabel(ix):
    if ix.op == "getitem" and ix.args[0].op in ("triu_indices", "tril_indices") and isnum(ix.args[1]):
        return tri(ix.args[0]) + (cval(ix.args[1]),)
    return None


def columns(t, sample):
    """index terms of the sample columns a test reads"""
    out = []
    for x in subterms(t):
        if x.op == "getitem" and x.args[0] is sample and x.args[1].op == "tuple" and len(x.args[1].args) == 2:
            c = x.args[1].args[1]
            cs = c.args if c.op in ("tuple", "list") else [c]
            out.extend(cs)
        elif x.op == "getitem" and x.args[0].op == "T" and x.args[0].args[0] is sample:
            c = x.args[1]
            cs = c.args if c.op in ("tuple", "list") else [c]
            out.extend(cs)
    return list(dict.fromkeys(out))


def both_used(t, sample):
    """both rows of a two-column task are read"""
    used = set()
    whole = False
    for x in subterms(t):
        if x.op == "getitem" and x.args[0].op == "T" and isnum(x.args[1]) and contains(x.args[0], sample):
            used.add(cval(x.args[1]))
        elif x.op == "getitem" and x.args[0] is sample and x.args[1].op == "tuple" and x.args[1].args[-1].op not in ("tuple", "list"):
            whole = True
    return whole or used >= {0, 1}


def tasks(s):
    """the task stream goes through the pairs in their order, without leaving any out"""
    for x in [s] + [y for z in T.subterms(s) if z.op == "many" for y in z.args[1:]]:
        while x.op in ("iter", "list", "tuple", "gen") and len(x.args) == 1 and x.args[0].op != "many":
            x = x.args[0]
        if x.op in REORDER | {"sortedby"}:
            raise Reordered(f"tasks are reordered by {x.op}")
        if x.op == "rest":
            raise Reordered("an element of the task stream is taken off before the tests")


def results(v):
    """the per-pair result term of a vector of test results; None when not recognised"""
    if v.op == "pmap":
        if v.data != "ordered":
            raise Reordered("results arrive in completion order")
        tasks(v.args[1])
        return v.args[0]
    if v.op in ("gen", "list", "tuple") and len(v.args) == 1 and v.args[0].op == "many":
        return v.args[0].args[0]
    if v.op in REORDER:
        raise Reordered(f"results are reordered by {v.op}")
    if v.op == "getitem" and v.args[1].op == "slice" and len(v.args[1].args) == 3 and isnum(v.args[1].args[2]) and cval(v.args[1].args[2]) < 0:
        raise Reordered("results are reversed")
    if v.op in KEEP and v.args:
        return results(v.args[0])
    if v.op == "map" and len(v.args) == 2:
        return None
    return None


def pairs(cx, t, sample, key):
    found = 0
    for s in subterms(t):
        if s.op != "store" or s.args[1].op != "tuple" or len(s.args[1].args) != 2:
            continue
        ia, ib = s.args[1].args
        loc = (s.locs or [None])[0]
        if ia.op == "elem" or (ia.op == "getitem" and ia.args[0].op == "elem"):
            want, res = {label(ia), label(ib)}, s.args[2]
        else:
            la, lb = streamlabel(ia), streamlabel(ib)
            if not any(x.op in ("pmap", "dctest", "rankdata") for x in subterms(s.args[2])):
                continue
            try:
                res = results(s.args[2])
            except Reordered as x:
                found += 1
                cx.put(None if la is None or lb is None else False, "result-order", key, loc, str(x))
                continue
            if la is None or lb is None or res is None:
                cx.und("pair-position", key, loc, f"store of {T.show(s.args[2], 3)} at {T.show(s.args[1], 3)} not recognised")
                found += 1
                continue
            want = {la, lb}
        cols = columns(res, sample)
        if not cols:
            continue
        found += 1
        have = {label(c) for c in cols}
        if any(isinstance(h, tuple) and h[0] == "reordered" for h in have):
            cx.bad("pair-position", key, loc, "task order differs from store order")
            continue
        if have == want and len(have) == 2 and both_used(res, sample):
            cx.ok("pair-position", key, loc, f"tested columns {show(have)} stored at {show(want)}")
            for h in have:
                if isinstance(h, tuple):
                    full = (h[0] == "U" and h[2] == 1) or (h[0] == "L" and h[2] == -1)
                    whole = h[1].op == "dim" and h[1].args[0] is sample and h[1].data == 1
                    cx.put(full and whole or (None if (full or not isinstance(h[2], int)) and not isnum(h[1]) else False),
                           "every-pair-once", f"{key} {h[3]}", loc, f"index stream {show([h])}")
        elif all(isinstance(h, tuple) for h in have | want) or have == want:
            cx.bad("pair-position", key, loc, f"tested columns {show(have)} but stored at {show(want)}")
        else:
            cx.und("pair-position", key, loc, f"tested columns {show(have)}, stored at {show(want)}")
    if not found:
        pv = t.args[1] if t.op == "tuple" and len(t.args) > 1 else None
        none = pv is not None and not opaque_in(pv) and not any(x is sample or x.op in ("pmap", "dctest", "rankdata", "many") for x in values_in(pv))
        cx.put(False if none else None, "pair-position", key, pv and next((l for l in pv.locs if l), None),
               "the returned p-values hold no test result" if none else "no store of test results recognised")


def values_in(t):
    """subterms whose values (not only whose sizes) enter t"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in out or x.op in ("dim", "shape", "size", "len", "ndim"):
            continue
        out.add(x)
        if x.op == "mu":
            todo += [T.MU[x.data]["init"], T.MU[x.data]["next"]]
        todo += T.children(x)
    return out


def show(ls):
    return ", ".join(sorted(f"tri{h[0]}({T.show(h[1], 1)},{h[2]})[{h[3]}]" if isinstance(h, tuple) and len(h) == 4 else T.show(h, 2) if isinstance(h, T.Term)
                            else str(h) for h in ls))


def pool(cx, r, key):
    for e in r.ev("pool"):
        k = f"{key} {e.d['method']}"
        cx.put(True if e.d["ordered"] else None, "result-order", k, e.loc)
        recv = e.d["recv"]
        if recv in e.ctx:
            cx.ok("pool-released", k, e.loc, "used inside its with block")
            cons = [c for c in r.ev("consume") if c.d["term"] is e.d["term"]]
            late = [c for c in cons if recv not in c.ctx]
            if late and e.d["method"].startswith("imap"):
                cx.bad("consumed-before-release", k, late[0].loc, "lazy results are consumed after the pool was terminated")
            elif cons:
                cx.ok("consumed-before-release", k, e.loc)
            else:
                cx.und("consumed-before-release", k, e.loc, "consumption not seen")
        else:
            close = [c for c in r.ev("mcall") if c.d.get("name") in ("close", "terminate", "__exit__") and c.d.get("recv") is recv]
            cx.put(None if close else False, "pool-released", k, e.loc, "the pool is not released on every exit")
    W = mk("worker")
    bad = []
    for e in r.events:
        if W not in e.ctx:
            continue
        if e.kind == "global-write":
            bad.append((e, f"writes module variable {e.d['name']}"))
        elif e.kind == "mutate" and any(c <= cx.modcid for c in e.d["origins"]):
            bad.append((e, "writes an object created at import time"))
        elif e.kind == "draw" and e.d["gen"].op == "lib":
            bad.append((e, "draws from a global generator that every worker process copies"))
    if r.ev("pool"):
        if bad:
            cx.bad("workers-share-nothing", key, bad[0][0].loc, bad[0][1])
        else:
            cx.ok("workers-share-nothing", key)


def check(cx):
    Q = "medil.independence_testing.estimate_UDG"
    if not cx.has(Q):
        return
    for meth in ("dcov_big", "xicor"):
        box = {}

        def est(_):
            d = cx.p("sample", "ndarray", 2, nonempty=True)
            box["d"] = cx.eng.term(d)
            return cx.call(Q, d, method=ConstV(meth), significance_level=cx.p("alpha", "float", lo=0, hi=1))
        r = cx.run(f"estimate_UDG({meth})", est)
        if r is None or r.result is None:
            cx.und("pair-position", meth, None, "no result")
            continue
        t = r.term()
        key = f"estimate_UDG({meth})"
        pairs(cx, t, box["d"], key)
        pool(cx, r, key)
        R = Regions(cx.eng, Ranges(cx.eng))
        parts = list(t.args) if t.op == "tuple" else [t]
        for n, x in zip(("graph", "p-values"), parts):
            if x.op == "const":
                continue
            l, d, u = R(x)

            def hasres(z):
                return contains(z, lambda y: y.op in ("pmap", "dctest", "rankdata"))
            if l is u and hasres(l):
                cx.ok("mirrored", f"{key} {n}")
            elif (l.op == "const") != (u.op == "const") or (hasres(l) != hasres(u)):
                cx.bad("mirrored", f"{key} {n}", (x.locs or [None])[0], "only one of the two mirrored positions holds the test result")
            else:
                cx.und("mirrored", f"{key} {n}", None, "")
