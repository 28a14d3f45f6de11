from .base import *
from .tools import *
from sa.values import *
from .c30 import peel, truth, axis, leaves, column, is_param, known

ID, TITLE = "C31", "The heuristic cover always explains every dependence"
RULE = ("Dominance of the returning path by a containment test: the path condition of the return must imply that every entry of the given graph is an entry of cover' cover for exactly the matrix that is "
        "returned. Structural facts of the symbolic stores that build the cover: one row per chosen child, the child and all its neighbours stored in the child's own row, only True ever stored, "
        "boolean type; and the sets handed out by the clique enumeration are not the list it keeps changing.")
ASSUMES = ["the dependence graph is symmetric"]
TECHNIQUE = "abstract interpretation to expression terms; path-condition implication; monotone store chains; escape of mutable state from the generator"
H = "medil.ecc_algorithms.find_heuristic_1pc"
_E = "medil/ecc_algorithms.py"
WITNESSES = [
    ("medil/ecc_algorithms.py", "nbrs = np.flatnonzero(graph[node])\n", "nbrs = np.flatnonzero(graph[node][: node + 1])\n"),
    (_E, "        raise Exception(f\"Problem with", "        print(f\"Problem with"),
    (_E, "    if np.logical_not(graph <= recon).any():", "    if np.logical_not(graph <= recon).all():"),
    (_E, "    if np.logical_not(graph <= recon).any():", "    if np.logical_not(recon <= graph).any():"),
    (_E, "    if np.logical_not(graph <= recon).any():", "    if num_latents > 1 and np.logical_not(graph <= recon).any():"),
    (_E, "    recon = the_cover.T @ the_cover\n", "    recon = the_cover.T @ the_cover | graph\n"),
    (_E, "for input {graph}\")\n\n    return the_cover", "for input {graph}\")\n\n    return the_cover[: num_latents // 2]"),
    (_E, "the_cover = np.zeros((num_latents, num_meas), bool)", "the_cover = np.zeros((num_latents, num_meas), int)"),
    (_E, "        nbrs = np.flatnonzero(graph[node])\n", "        nbrs = np.flatnonzero(graph[idx])\n"),
    (_E, "        the_cover[idx, nbrs] = True\n", "        the_cover[0, nbrs] = True\n"),
    (_E, "        nbrs = np.flatnonzero(graph[node])\n", "        nbrs = np.flatnonzero(graph[node])[1:]\n"),
    (_E, "                    yield Q[:]\n", "                    yield Q\n"),
    (_E, "            the_cover[np.argmax(the_cover[:, u]), v] = True\n", "            the_cover[np.argmax(the_cover[:, u]), v] = False\n"),
    (_E, "    num_latents = len(max_indep_set)\n", "    num_latents = len(max_indep_set) + 1\n"),
    (_E, "    for idx, node in enumerate(max_indep_set):\n", "    for idx, node in enumerate(max_indep_set[1:]):\n"),
]


def check(cx):
    if not cx.has(H):
        return
    r = cx.run("find_heuristic_1pc", lambda _: cx.call(H, cx.p("graph", "array", nd=2)))
    t = r.term() if r is not None and r.result is not None else None
    if t is None:
        cx.und("contained", "result", None, "not analysed")
        return
    ret = [e for e in r.ev("return") if e.d["qual"] == H]
    for e in ret:
        v = e.d["value"]
        ok, base, _ = chain(v)
        b = cx.eng.lib.boolish(v) or ok and all(cx.eng.lib.boolish(x) for x in base)
        from .c30 import counted
        cx.put(True if b else False if counted(v) else None, "boolean", "result", e.loc, "boolean latent graph" if b else "the latent graph is not boolean")
        contained(cx, v, e)
        children(cx, v, e)
    if not ret:
        cx.und("contained", "result", None, "no return found")
    escapes(cx, r)


# ---- the containment test ----------------------------------------------------------------------

def graph_of(t):
    """t is the given graph (any encoding), or a part of it that keeps every edge"""
    t = truth(t)
    if is_param(t, "graph"):
        return True
    if t.op == "triu" and is_param(truth(t.args[0]), "graph"):
        k = t.args[1] if len(t.args) > 1 else None
        return k is None or T.is_const(k) and T.cval(k) <= 1
    return False


def recon_of(t, cover):
    t = truth(t)
    if t.op != "matmul":
        return False
    a, b = (truth(x) for x in t.args)
    return (a.op == "T" and truth(a.args[0]) is cover and b is cover)


def implied(a, cover):
    """fact `a` holds entrywise: graph implies cover'cover there (True); None when it is something else"""
    a = truth(a)
    if a.op == "le":
        return graph_of(a.args[0]) and recon_of(a.args[1], cover)
    if a.op in ("or", "bor"):
        g = any(x.op in ("not", "invert") and graph_of(x.args[0]) for x in a.args)
        return g and any(recon_of(x, cover) for x in a.args)
    if a.op in ("not", "invert"):
        return excluded(a.args[0], cover)
    return False


def excluded(a, cover):
    """fact: entry a is false everywhere -> containment?"""
    a = truth(a)
    if a.op in ("not", "invert"):
        return implied(a.args[0], cover)
    if a.op == "lt":
        return graph_of(a.args[1]) and recon_of(a.args[0], cover)
    if a.op in ("and", "band"):
        return any(graph_of(x) for x in a.args) and any(x.op in ("not", "invert") and recon_of(x.args[0], cover) or x.op == "eq" and any(is_c(y, 0) for y in x.args) and any(recon_of(y, cover) for y in x.args) for x in a.args)
    return False


def entails(c, cover):
    if c.op == "band":
        return any(entails(x, cover) for x in c.args)
    if c.op == "bor":
        return all(entails(x, cover) for x in c.args)
    if c.op == "not":
        a = c.args[0]
        if a.op == "not":
            return entails(a.args[0], cover)
        if a.op == "any" and not a.kw or a.op in ("sum", "count_nonzero") and not a.kw:
            return excluded(a.args[0], cover)
        if a.op == "bor":
            return any(entails(T.lnot(x), cover) for x in a.args)
        return False
    if c.op == "all" and not c.kw:
        return implied(c.args[0], cover)
    if c.op == "eq" and any(is_c(x, 0) for x in c.args):
        x = c.args[1] if is_c(c.args[0], 0) else c.args[0]
        return x.op in ("sum", "count_nonzero") and not x.kw and excluded(x.args[0], cover)
    return False


def contained(cx, v, e):
    cover = peel(v)
    if any(entails(c, cover) for c in e.pc):
        cx.ok("contained", "return", e.loc, "returned only after every edge of the graph was found among the explained ones")
        return
    related = [c for c in e.pc if any(is_param(s, "graph") for s in T.subterms(c, through_mu=False))]
    bad = not related
    for c in related:
        # the test is about another matrix than the one returned, or does not test containment
        ms = [s for s in T.subterms(c, through_mu=False) if s.op == "matmul"]
        if any(recon_of(m, cover) for m in ms):
            bad = bad or plain(c)
        elif cover.op in ("getitem", "store") and any(recon_of(m, peel(cover.args[0])) for m in ms):
            bad = bad or cover.op == "getitem" or is_c(cover.args[2], False) or is_c(cover.args[2], 0)
    cx.put(False if bad else None, "contained", "return", e.loc, "the latent graph is returned without every edge of the graph having been tested against it")


def plain(c):
    return all(s.op in ("diag", "diagonal", "any", "all", "not", "invert", "le", "lt", "and", "or", "band", "bor", "matmul", "T", "mu", "param", "const", "eq", "sum", "astype", "xor", "len", "list", "many", "mcall") or s.op == "matmul"
               for s in T.subterms(c, through_mu=False, stop=lambda s: s.op in ("mu", "len", "dim", "list")))


# ---- rows of the chosen children ---------------------------------------------------------------

def chain(t):
    """stores on every path from the first matrix to t; None if some step is not a store"""
    out, seen = [], []

    def go(x, sure, loop):
        x = peel(x)
        if x in seen:
            return True
        if x.op == "store":
            seen.append(x)
            out.append((x, sure, loop))
            return go(x.args[0], sure, loop)
        if x.op == "phi":
            return all([go(x.args[1], False, loop), go(x.args[2], False, loop)])
        if x.op == "mu":
            seen.append(x)
            m = T.MU[x.data]
            return all([go(m["init"], sure, loop), go(m["next"], sure, x.data)])
        if x.op == "full":
            base.append(x)
            return True
        base.append(x)
        return False
    base = []
    ok = go(t, True, None)
    return ok, base, out


def members(s):
    """elements a list may have"""
    if s.op in ("list", "tuple", "sorted", "array"):
        out = set()
        for a in s.args:
            out |= members(a) if a.op in ("list", "tuple") else leaves(a.args[0] if a.op == "many" else a)
        return out
    return {mk("elem", (s,), data=1)}


def children(cx, v, e):
    ok, base, sts = chain(v)
    key = "own row with all neighbours"
    if not ok or len(set(base)) != 1 or base[0].op != "full":
        cx.und("child-row", key, e.loc, "the way the latent graph is built is not understood")
        return
    full = base[0]
    shape = full.args[0]
    lost = [s for s, _, _ in sts if not (is_c(s.args[2], True) or is_c(s.args[2], 1) or added(s) is not None)]
    for s in lost:
        loc = next((x for x in s.locs if x), e.loc)
        cx.put(False if is_c(s.args[2], 0) or is_c(s.args[2], False) else None, "only-adds", "entries", loc, "an entry of the latent graph may be cleared again")
    if not lost:
        cx.ok("only-adds", "entries", e.loc, "entries are only ever set to True")
    own = nb = kids = None
    wrong_nb = None
    for s, sure, loop in sts:
        if not sure or s.args[1].op != "tuple" or len(s.args[1].args) != 2:
            continue
        row, col = s.args[1].args
        if row.op in ("arange", "range") and len(row.args) == 1 and size_of(row.args[0]) is not None and size_of(row.args[0]) is strip(col):
            own, kids = s, strip(col)
    for s, sure, loop in sts:
        if not sure or loop is None:
            continue
        if added(s) is not None:
            row, col = s.args[1], added(s)
        elif s.args[1].op == "tuple" and len(s.args[1].args) == 2:
            row, col = s.args[1].args
        else:
            continue
        g = adjacent(col)
        if g is not None:
            node, whole = g
            src = row.args[0] if row.op == "index" else None
            if row.op == "elem" and row.args[0].op in ("range", "arange") and len(row.args[0].args) == 1:
                src = size_of(row.args[0].args[0])
            if src is not None and whole and (leaves(node) == members(strip(src)) or node.op == "getitem" and node.args[1] is row):
                nb = s
                if kids is None:
                    kids = strip(src)
                elif strip(src) is not kids:
                    nb, wrong_nb = None, s
            elif not whole or node.op in ("index", "const") or T.is_const(row) or src is not None and any(m.op == "many" and any(a.op == "cut" for a in m.args) for m in src.args) and leaves(node) == members(strip(src)):
                wrong_nb = s
        elif row.op == "index" and leaves(col) == members(strip(row.args[0])):
            own, kids = s, strip(row.args[0])
    loc = next((x for x in (nb or wrong_nb or full).locs if x), e.loc)
    if nb is not None:
        cx.ok("child-row", "neighbours", loc, "all neighbours of the child are in its row")
    else:
        cx.put(False if wrong_nb is not None else None, "child-row", "neighbours", loc, "the neighbours of a chosen child are not all put into its own row")
    shared = next((s for s, sure, _ in sts if s.args[1].op == "tuple" and len(s.args[1].args) == 2 and T.isnum(s.args[1].args[0]) and kids is not None
                   and strip(s.args[1].args[1]) is kids), None)
    if shared is not None:
        own = None
        cx.bad("child-row", "child", next((x for x in shared.locs if x), loc), "all chosen children are put into the same row: none has its own latent")
    else:
        cx.put(True if own is not None else None, "child-row", "child", loc, "the child itself is in its row" if own is not None else "where the child itself is set is not understood")
    if kids is not None and shape.op == "tuple" and len(shape.args) == 2:
        n = size_of(shape.args[0])
        good = n is kids
        off = shape.args[0].op in ("add", "sub", "mul", "floordiv") and any(size_of(a) is kids for a in shape.args[0].args)
        cx.put(True if good else False if off else None, "child-row", "one row per child", loc, "as many rows as chosen children" if good else "the number of latents is not the number of chosen children")
    else:
        cx.und("child-row", "one row per child", loc, "the number of latents is not understood")


def added(s):
    """x[i] |= v  ->  v"""
    v = truth(s.args[2])
    if v.op not in ("or", "bor", "maximum") or len(v.args) != 2:
        return None
    for a, b in (v.args, v.args[::-1]):
        if a.op == "getitem" and a.args[1] is s.args[1] and a.args[0] is s.args[0]:
            return b
    return None


def strip(t):
    while t.op in ("array", "list", "asarray", "sorted", "tuple") and len(t.args) == 1 and t.args[0].op in ("list", "tuple"):
        t = t.args[0]
    return t


def size_of(t):
    if t.op in ("len", "size") or t.op == "dim" and t.data == 0:
        return strip(t.args[0])
    return None


def adjacent(col):
    """(node, all of its neighbours?) when col selects neighbours of node"""
    c, whole = col, True
    while True:
        if c.op in ("flatnonzero", "nonzero"):
            c = c.args[0]
        elif c.op == "getitem" and c.args[0].op in ("flatnonzero", "nonzero"):
            if c.args[0].op == "flatnonzero" or not is_c(c.args[1], 0):
                whole = False
            c = c.args[0]
        elif c.op == "getitem" and c.args[1].op == "slice" and truth(c.args[0]).op == "getitem":
            lo, hi, st = c.args[1].args
            if not (T.is_const(lo) and T.cval(lo) in (None, 0) and T.is_const(st) and T.cval(st) in (None, 1)):
                return None
            if T.is_const(hi) and T.cval(hi) is not None or hi.op == "add":
                whole = False
            elif not T.is_const(hi) and hi.op not in ("dim", "len"):
                return None
            c = c.args[0]
        else:
            break
    c = truth(c)
    if c.op == "getitem" and is_param(truth(c.args[0]), "graph"):
        i = c.args[1]
        if i.op == "tuple" and len(i.args) == 2:
            sl = [x for x in i.args if x.op == "slice"]
            if len(sl) != 1:
                return None
            whole = whole and all(T.is_const(a) and T.cval(a) is None for a in sl[0].args)
            i = i.args[1] if i.args[0].op == "slice" else i.args[0]
        return i, whole
    return None


# ---- sets handed out by the enumeration ----------------------------------------------------------

def escapes(cx, r):
    changed = {}
    for e in r.ev("mutate"):
        for c in e.d.get("origins", ()):
            changed.setdefault(c, e)
    n = 0
    for e in r.ev("yield"):
        n += 1
        v = e.d.get("v")
        for o in refs(v):
            if o in changed:
                cx.bad("set-escapes", e.loc[2] if e.loc else "generator", e.loc, f"a list that the enumeration goes on changing (line {changed[o].loc[1]}) is handed out: a chosen set kept by the caller changes")
                break
        else:
            cx.ok("set-escapes", e.loc[2] if e.loc else "generator", e.loc, "each set handed out is a new list")


def refs(v):
    if isinstance(v, PhiV):
        return refs(v.a) + refs(v.b)
    c = getattr(v, "cid", None)
    return [c] if c is not None else []
