from .base import *
from .tools import *
from sa.values import *

ID, TITLE = "C30", "The exact search returns only complete covers of all vertices"
RULE = ("Path-condition analysis of every return of the search: a value other than None or a recursive result may only be returned on paths whose condition implies that no uncovered edge is left, "
        "and must have the vertices removed by reductions put back (it depends on the record of removed vertices, or the path excludes that there are any). Support obligations: putting back visits "
        "every removed vertex and joins it to exactly the cliques holding one of its prisoners; edges are only marked covered when both ends lie in the newest clique of the cover; removing a vertex is recorded and the vertices recorded earlier stay; a cover only grows "
        "by appending a clique to the current one, and neither the cliques found nor the edges still to be covered are changed by another step (no shared memory); the final result, on every path, is a fresh boolean matrix extended by a clique for every vertex that has none.")
ASSUMES = ["recursive calls return complete covers (the induction hypothesis)"]
TECHNIQUE = "abstract interpretation to expression terms; path-condition implication over return sites; structural facts of symbolic stores"
U, B, M = "medil.graph.UndirectedDependenceGraph", "medil.ecc_algorithms.branch", "medil.ecc_algorithms.find_clique_min_cover"
_G, _E = "medil/graph.py", "medil/ecc_algorithms.py"
WITNESSES = [
    ("medil/ecc_algorithms.py", "np.flatnonzero(cover.sum(0) == 0)\n", "np.flatnonzero(cover.sum(0) == 0)[1:]\n"),
    (_E, "    if branch_graph.num_edges == 0:\n        return branch_graph.reconstruct", "    if branch_graph.num_edges <= 1:\n        return branch_graph.reconstruct"),
    (_E, "    if branch_graph.num_edges == 0:\n        return branch_graph.reconstruct", "    if branch_graph.num_edges == 0 or k_num_cliques == 0:\n        return branch_graph.reconstruct"),
    (_E, "        return branch_graph.reconstruct_cover(the_cover)", "        return the_cover"),
    (_E, "    if k_num_cliques < 0:\n        return None\n", "    if k_num_cliques < 0:\n        return branch_graph.the_cover\n"),
    (_E, "else np.vstack((branch_graph.the_cover, clique))", "else np.vstack((the_cover, clique))"),
    (_E, "else np.vstack((branch_graph.the_cover, clique))", "else np.vstack((branch_graph.the_cover[1:], clique))"),
    (_E, "return add_isolated_verts(the_cover)", "return the_cover.astype(bool)"),
    (_E, "return add_isolated_verts(np.zeros((0, graph.max_num_verts), bool))", "return np.zeros((0, graph.max_num_verts), bool)"),
    (_E, "return add_isolated_verts(np.zeros((0, graph.max_num_verts), bool))", "return graph.adj_matrix"),
    (_E, "np.flatnonzero(cover.sum(0) == 0)", "np.flatnonzero(cover.sum(0) == 1)"),
    (_E, "    cover = cover.astype(bool)\n", ""),
    (_G, "else np.vstack((self.the_cover, clique))", "else np.vstack((clique, self.the_cover))"),
    (_G, "clique = self.the_cover[-1]", "clique = self.the_cover.any(0)"),
    (_G, "np.flatnonzero(self.reduced_away.sum(1))", "np.flatnonzero(self.reduced_away.sum(0))"),
    (_G, "np.flatnonzero(self.reduced_away.sum(1))", "np.flatnonzero(self.reduced_away.sum(1))[:1]"),
    (_G, "the_cover[cliques_to_update_mask, vert] = 1", "the_cover[~cliques_to_update_mask, vert] = 1"),
    (_G, "np.logical_and(tiled_prisoners, the_cover).sum(1)", "np.logical_or(tiled_prisoners, the_cover).sum(1)"),
    (_G, "np.logical_and(tiled_prisoners, the_cover).sum(1).astype(bool)", "np.logical_and(tiled_prisoners, the_cover).all(1)"),
    (_G, "chosen_nbrhood = self.adj_matrix.copy()", "chosen_nbrhood = self.adj_matrix.view()"),
    (_G, "clique = self.common_neighbors[self.extant_edges_idx[clique_idx]].copy()", "clique = self.common_neighbors[self.extant_edges_idx[clique_idx]]"),
    (_G, "prisoners = self.reduced_away[vert]", "prisoners = self.reduced_away[:, vert]"),
    (_G, '                if not hasattr(self, "reduced_away"):\n', "                if True:\n"),
    (_G, "                self.reduced_away[vert] = prisoners\n", "                self.reduced_away[:] = False\n                self.reduced_away[vert] = prisoners\n"),
    (_G, "        if hasattr(udg, \"reduced_away\"):  # then rule_3 wasn't applied\n            self.reduced_away = udg.reduced_away.copy()\n", ""),
]


def check(cx):
    if not (cx.has(U) and cx.has(B) and cx.has(M)):
        return
    returns(cx)
    putting_back(cx)
    marking(cx)
    keeping(cx)
    recording(cx)
    growing(cx)
    final(cx)


def copy_of_root(cx):
    n = cx.call(U, cx.p("graph", "array", nd=2))
    cx.meth(n, "make_aux")
    return cx.meth(n, "reducible_copy")


# ---- what each return of branch() may hand out -------------------------------------------------

def leaves(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    if t.op == "phi":
        return leaves(t.args[1], seen) | leaves(t.args[2], seen)
    if t.op == "mu":
        m = T.MU[t.data]
        return leaves(m["init"], seen) | (leaves(m["next"], seen) if m.get("next") is not None else set())
    return {t}


def uncovered(t):
    """t is the number of uncovered edges left"""
    ls = leaves(t)

    def one(x):
        if x.op == "sum" and not x.kw and x.args[0].op == "triu" and len(x.args[0].args) > 1 and is_c(x.args[0].args[1], 1):
            return True
        return x.op in ("size", "dim") and (x.op == "size" or x.data == 0) and all(y.op in ("delete", "fromiter") for y in leaves(x.args[0]))
    return bool(ls) and all(one(x) for x in ls)


def no_edges(c):
    """True: c implies no uncovered edge; False: it does not; 'edges': it implies the opposite; None: not understood"""
    if c.op == "band":
        rs = [no_edges(a) for a in c.args]
        return True if True in rs else "edges" if "edges" in rs else None if None in rs else False
    if c.op == "bor":
        rs = [no_edges(a) for a in c.args]
        return True if all(r is True for r in rs) else None if None in rs else False
    if c.op == "not":
        a = c.args[0]
        if a.op == "not":
            return no_edges(a.args[0])
        if uncovered(a):
            return True
        if a.op == "bor":
            rs = [no_edges(mk("not", (x,))) for x in a.args]
            return True if True in rs else None if None in rs else False
        if a.op == "ne":
            return no_edges(mk("eq", a.args))
        if a.op == "lt":                                           # not 0 < n  /  not n < 1
            if is_c(a.args[0], 0) and uncovered(a.args[1]):
                return True
            return "edges" if uncovered(a.args[0]) and is_c(a.args[1], 1) else numeric(a)
        if a.op == "le":
            if is_c(a.args[0], 1) and uncovered(a.args[1]):
                return True
            return "edges" if uncovered(a.args[0]) and is_c(a.args[1], 0) else numeric(a)
        return numeric(a)
    if uncovered(c):
        return "edges"
    if c.op in ("eq", "ne"):
        a, b = c.args
        if is_c(b, 0):
            a, b = b, a
        if is_c(a, 0) and uncovered(b):
            return True if c.op == "eq" else "edges"
    if c.op == "lt" and uncovered(c.args[0]) and is_c(c.args[1], 1) or c.op == "le" and uncovered(c.args[0]) and is_c(c.args[1], 0):
        return True
    if c.op in ("lt", "le") and uncovered(c.args[1]) and T.is_const(c.args[0]):
        return "edges"
    return numeric(c)


def numeric(c):
    """False when the condition plainly says nothing about uncovered edges, None when it might"""
    for x in [c] if c.op not in ("eq", "ne", "lt", "le", "not", "is", "isnot") else c.args:
        for l in leaves(x):
            if uncovered(l) or T.is_const(l) or l.op in ("param", "inloop", "ran", "brk", "handler", "has"):
                continue
            if l.op in ("add", "sub") and all(T.is_const(y) or y.op in ("param", "mu", "phi", "add", "sub") for y in l.args):
                continue
            if l.op in ("not", "eq", "ne", "lt", "le", "is", "isnot", "band", "bor") and numeric(l) is False:
                continue
            if l.op in ("dim", "sum", "any", "all", "size", "count_nonzero") and any(s.op == "triu" or s.op == "delete" for s in T.subterms(l, through_mu=True)):
                return None
            if l.op in ("any", "all", "sum", "size", "count_nonzero", "opaque", "call"):
                return None
    return False


def returns(cx):
    def go(_):
        c = copy_of_root(cx)
        cx.eng.setattr(c, "reduced_away", cx.p("away", "array", nd=2))
        return cx.call(B, c, cx.p("k", "int"), cx.p("cover", "array", nd=2), cx.p("iteration", "int"), cx.p("iteration_max", "int"))
    r = cx.run("branch", go)
    if r is None:
        cx.und("complete", "branch", None, "not analysed")
        return
    n = 0
    for e in r.ev("return"):
        if e.d["qual"] != B or sum(q == B for q, _ in e.stack) != 1:
            continue
        n += 1
        v = e.d["value"]
        if T.is_const(v) and T.cval(v) is None or all(l.op == "rec" or T.is_const(l) and T.cval(l) is None for l in leaves(v)):
            continue
        inner = any(s.op == "rec" and s.data[0] == B for s in T.subterms(v))
        if inner:
            continue                                               # hands on a recursive result (unrolled once)
        rs = [no_edges(c) for c in e.pc]
        key = "the cover extended by reductions" if any(s.op in ("vstack", "concat", "append") for s in T.subterms(v, through_mu=True)) else "the cover passed in"
        if any(s.op == "param" and s.data == "iteration_max" for c in e.pc for s in T.subterms(c)):
            key += ", at the iteration limit"
        if True in rs:
            cx.ok("complete", key, e.loc, "returned only when no uncovered edge is left")
        else:
            cx.put(False if "edges" in rs or None not in rs else None, "complete", key, e.loc, "a cover is returned on a path where uncovered edges may be left")
        back = any(s.op == "param" and s.data == "away" for s in T.subterms(v, through_mu=True))
        dark = murky(v)
        cx.put(True if back else None if dark else False, "restored", key, e.loc, "vertices removed by reductions are put back" if back else "vertices removed by a reduction are not put back into the returned cover")
    if not n:
        cx.und("complete", "branch", None, "no return found")


# ---- putting removed vertices back ---------------------------------------------------------------

KNOWN = {"store", "tuple", "slice", "getitem", "mu", "param", "const", "and", "or", "not", "sum", "any", "all", "astype", "tile", "elem", "index", "nonzero", "flatnonzero", "eq", "ne", "lt", "le",
         "dim", "arange", "matmul", "mul", "add", "sub", "invert", "xor", "phi", "has", "T", "vstack", "full", "reshape", "size", "len", "max", "min", "is", "isnot", "unset", "ran", "range", "list"}


def known(*ts):
    return all(s.op in KNOWN for t in ts for s in T.subterms(t, through_mu=True))


def murky(t):
    return [o for o in opaque_in(t) if o.op not in ("unset", "rec")]


def peel(t):
    while t.op in ("astype", "copy", "reshape"):
        t = t.args[0]
    return t


def is_param(t, n):
    return t.op == "param" and t.data == n


def truth(t):
    """strip conversions of a count or 0/1 value to a truth value"""
    while True:
        if t.op == "astype" and T.is_const(t.args[1]) and T.cval(t.args[1]) in ("bool", "int"):
            t = t.args[0]
        elif t.op == "ne" and any(is_c(a, 0) for a in t.args):
            t = t.args[1] if is_c(t.args[0], 0) else t.args[0]
        elif t.op == "lt" and is_c(t.args[0], 0):
            t = t.args[1]
        elif t.op == "le" and is_c(t.args[0], 1):
            t = t.args[1]
        else:
            return t


def axis(t):
    a = dict(t.kw).get("axis", t.args[1] if len(t.args) > 1 else None)
    return T.cval(a) if a is not None and T.is_const(a) else None


def putting_back(cx):
    def go(_):
        c = copy_of_root(cx)
        cx.eng.setattr(c, "reduced_away", cx.p("away", "array", nd=2))
        return cx.meth(c, "reconstruct_cover", cx.p("cover", "array", nd=2))
    r = cx.run("reconstruct_cover", go)
    t = r.term() if r is not None and r.result is not None else None
    if t is None or opaque_in(t):
        cx.und("put-back", "reconstruct_cover", None, "not analysed")
        return
    loc = next((l for l in t.locs if l), None)
    t = peel(t)
    if t.op != "mu":
        cx.put(False if is_param(t, "cover") else None, "put-back", "every removed vertex", loc, "removed vertices are not added to the cover")
        return
    m = T.MU[t.data]
    init = peel(m["init"])
    cx.put(True if is_param(init, "cover") else None, "put-back", "starts from the cover found", loc, "starts from the cover found")
    nx = m["next"]
    if nx.op == "phi" and t in nx.args[1:]:
        take = nx.args[1] if nx.args[2] is t else nx.args[2]
        for c in T.subterms(nx.args[0]):                           # nothing to do for vertices without prisoners
            if c.op in ("any", "sum") and contains(c, lambda s: is_param(s, "away")) and not c.kw:
                v = T.subst(nx.args[0], {c: T.const(True)})
                if T.is_const(v) and bool(T.cval(v)) == (take is nx.args[1]):
                    nx = take
                    break
    if nx.op != "store" or nx.args[0] is not t or nx.args[1].op != "tuple" or len(nx.args[1].args) != 2:
        cx.und("put-back", "every removed vertex", loc, "the update of the cover is not understood")
        return
    rows, vert = nx.args[1].args
    cx.put(True if is_c(nx.args[2], 1) or is_c(nx.args[2], True) else False if T.is_const(nx.args[2]) else None, "put-back", "added", loc, "the vertex is set as a member")
    it = visits(vert)
    cx.put(it if it is not None or not known(vert) else None, "put-back", "every removed vertex", loc, "every removed vertex is visited" if it else "not every removed vertex is visited")
    j = joined(rows, t, vert)
    cx.put(j, "put-back", "to cliques with a prisoner", loc, "joined to every clique holding a prisoner" if j else "joined to the wrong cliques")


def visits(v):
    """v runs over (at least) all rows of away that have an entry"""
    if v.op == "index":
        return True if is_param(v.args[0], "away") else None
    if v.op != "elem":
        return None
    src = v.args[0]
    if src.op == "getitem" and len(src.args) == 2 and src.args[1].op == "slice":
        inner = visits(mk("elem", (src.args[0],), data=v.data))
        full = all(T.is_const(a) and T.cval(a) is None for a in src.args[1].args[:2])
        return inner if full or inner is not True else False
    if src.op == "getitem" and is_c(src.args[1], 0):
        src = src.args[0]
    if src.op in ("flatnonzero", "nonzero"):
        x = truth(src.args[0])
        if x.op in ("sum", "any") and is_param(x.args[0], "away"):
            return axis(x) in (1, -1)
        return None
    if src.op in ("arange", "range"):
        n = src.args[-1] if len(src.args) < 3 else None
        if len(src.args) == 2 and not is_c(src.args[0], 0):
            return False
        return True if n is not None and n.op == "dim" and contains(n, lambda s: is_param(s, "away") or is_param(s, "cover") or is_param(s, "graph")) else None
    return None


def joined(rows, cover, vert):
    x = truth(rows)
    if x.op == "all":
        return False if known(x) else None
    if x.op in ("not", "invert"):
        return False if joined(x.args[0], cover, vert) is True else None

    def prisoners(p):
        if p.op == "tile":
            p = p.args[0]
        p = truth(p)
        if p.op == "elem" and is_param(p.args[0], "away"):
            return vert.op == "index" and vert.args[0] is p.args[0]
        if p.op == "getitem" and is_param(p.args[0], "away"):
            i = p.args[1]
            if i is vert or i.op == "tuple" and i.args[0] is vert and i.args[1].op == "slice":
                return True
            return False if known(i) else None
        return None
    if x.op in ("sum", "any", "max"):
        a = truth(x.args[0])
        if axis(x) not in (1, -1):
            return False if known(x) else None
        if a.op in ("and", "mul", "band"):
            ps = [prisoners(y) for y in a.args]
            cs = [truth(y) is cover for y in a.args]
            if True in ps and True in cs:
                return True
            return False if known(x) and False in ps else None
        if a.op == "getitem" and truth(a.args[0]) is cover and a.args[1].op == "tuple" and a.args[1].args[0].op == "slice":
            q = a.args[1].args[1]
            return prisoners(q.args[0] if q.op in ("flatnonzero",) else q)
        return False if known(x) and a.op in ("or", "xor", "add") else None
    if x.op == "matmul" and truth(x.args[0]) is cover:
        return prisoners(x.args[1])
    return None


# ---- marking edges covered -------------------------------------------------------------------------

def marking(cx):
    for how in ("cover_edges", "rule_2"):
        box = {}

        def go(_):
            c = copy_of_root(cx)
            box["adj0"] = cx.eng.term(cx.eng.getattr(c, "adj_matrix"))
            cx.eng.setattr(c, "the_cover", cx.p("cover", "array", nd=2))
            cx.eng.setattr(c, "k_num_cliques", cx.p("k", "int"))
            cx.meth(c, how)
            box["adj"] = cx.eng.term(cx.eng.getattr(c, "adj_matrix"))
            box["cover"] = cx.eng.term(cx.eng.getattr(c, "the_cover"))
            box["n"] = cx.eng.term(cx.eng.getattr(c, "num_edges"))
        r = cx.run(how, go)
        if r is None or "adj" not in box:
            cx.und("marked", how, None, "not analysed")
            continue
        cov = [x for x in phis(box["cover"]) if how == "cover_edges" or not any(is_param(l, "cover") for l in leaves(x))]
        newest = {mk("getitem", (l, T.const(-1))) for l in cov}
        for l in cov:
            if l.op in ("vstack", "concat"):
                newest.add(last(l))
            if l.op == "reshape":
                newest.add(l.args[0])
        newest |= {peel(x) for x in newest}
        cx.put(True if uncovered(box["n"]) else None, "marked", f"{how}: edges are recounted", None, "the number of uncovered edges is recounted from the matrix")
        got = False
        for l in leaves(box["adj"]):
            while l.op == "store":
                got = True
                loc = next((x for x in l.locs if x), None)
                good = inside(l.args[1], newest)
                cx.put(good, "marked", f"{how}: only edges of the newest clique", loc, "both ends of a marked edge lie in the newest clique" if good else "edges outside the newest clique of the cover are marked as covered")
                l = l.args[0]
        if not got:
            cx.und("marked", how, None, "no marking of edges found")


GRAPH = ("adj_matrix", "num_edges", "extant_edges_idx")


def keeping(cx):
    """edges are only taken out by being covered; cliques found stay as they were found"""
    box = {}

    def go(_):
        c = copy_of_root(cx)
        cx.eng.setattr(c, "the_cover", cx.p("cover", "array", nd=2))
        cx.eng.setattr(c, "k_num_cliques", cx.p("k", "int"))
        box["before"] = {n: cx.eng.term(cx.eng.getattr(c, n)) for n in (*GRAPH, "the_cover")}
        cx.meth(c, "choose_nbrhood")
        box["after"] = {n: cx.eng.term(cx.eng.getattr(c, n)) for n in (*GRAPH, "the_cover")}
    r = cx.run("choose_nbrhood", go)
    same(cx, r, box, "uncovered-kept", "choosing where to branch", "the edges still to be covered")
    for first in (True, False):
        for op in ("rule_1", "rule_3", "choose_nbrhood"):
            box = {}

            def go2(_):
                c = copy_of_root(cx)
                if not first:
                    cx.eng.setattr(c, "the_cover", cx.p("cover", "array", nd=2))
                cx.eng.setattr(c, "k_num_cliques", cx.p("k", "int"))
                cx.meth(c, "rule_2")
                box["before"] = {"the_cover": cx.eng.term(cx.eng.getattr(c, "the_cover"))}
                cx.meth(c, op)
                box["after"] = {"the_cover": cx.eng.term(cx.eng.getattr(c, "the_cover"))}
            r = cx.run(f"{op} after rule_2", go2)
            same(cx, r, box, "clique-kept", f"{op} after rule_2, {'no' if first else 'some'} cliques before", "the cliques found")


def recording(cx):
    """rule 3 adds the vertex it removes to the record, and every vertex recorded earlier stays there"""
    for have in (True, False):
        box = {}

        def go(_):
            c = copy_of_root(cx)
            if have:
                cx.eng.setattr(c, "reduced_away", cx.p("record", "array", nd=2))
            cx.meth(c, "rule_3")
            box["t"] = cx.eng.term(cx.eng.getattr(c, "reduced_away"))
        r = cx.run(f"rule_3, {'some' if have else 'no'} vertices removed before", go)
        key = f"rule_3 with {'earlier' if have else 'no earlier'} removals"
        if r is None or "t" not in box:
            cx.und("recorded", key, None, "not analysed")
            continue
        for l in leaves(box["t"]):
            loc = next((x for x in l.locs if x), None)
            while l.op == "store":
                if T.is_const(l.args[2]):
                    cx.bad("recorded", key, next((x for x in l.locs if x), loc), "the record of removed vertices is overwritten: vertices removed earlier are not put back")
                    break
                row = l.args[1].args[0] if l.args[1].op == "tuple" and l.args[1].args else l.args[1]
                if row.op not in ("index", "elem", "range"):
                    cx.und("recorded", key, loc, "where the removed vertex is recorded is not understood")
                    break
                l = l.args[0]
            else:
                if is_param(l, "record"):
                    cx.ok("recorded", key, loc, "earlier entries stay")
                elif have:
                    cx.put(None if murky(l) else False if l.op == "full" else None, "recorded", key, loc, "the record of removed vertices starts afresh: vertices removed earlier are not put back")
                elif l.op == "opaque":
                    pass                    # nothing removed, nothing recorded
                else:
                    cx.put(True if l.op == "full" and len(l.args) > 1 and is_c(l.args[1], False) or is_c(l.args[-1], 0) else None, "recorded", key, loc, "the record starts empty")


def same(cx, r, box, rule, key, what):
    if r is None or "after" not in box:
        cx.und(rule, key, None, "not analysed")
        return
    a, b = box["before"], box["after"]
    off = [n for n in a if a[n] is not b[n]]
    for n in off:
        loc = next((x for x in b[n].locs if x), None)
        cx.put(None if set(murky(b[n])) - set(murky(a[n])) else False, rule, f"{key}: {n}", loc, f"{key} changes {what} ({n})")
    if not off:
        cx.ok(rule, key, None, f"{what} stay as they were")


def phis(t):
    return [t] + (phis(t.args[1]) + phis(t.args[2]) if t.op == "phi" else [])


def last(t):
    parts = t.args[0].args if len(t.args) == 1 and t.args[0].op in ("tuple", "list") else t.args
    return parts[-1]


def column(t):
    """look a column of a pair table up"""
    if t.op == "getitem" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and t.args[1].args[0].op == "slice" and T.is_const(t.args[1].args[1]):
        k, b = T.cval(t.args[1].args[1]), t.args[0]
        while b.op == "store" and b.args[1].op == "tuple" and b.args[1].args[0].op == "slice" and T.is_const(b.args[1].args[1]):
            if T.cval(b.args[1].args[1]) == k:
                return b.args[2]
            b = b.args[0]
    return t


def inside(idx, newest):
    if idx.op != "tuple" or len(idx.args) != 2:
        return None
    out = []
    for x in idx.args:
        x = column(x)
        if x.op == "getitem":
            x = x.args[0]
        if x.op == "getitem" and is_c(x.args[1], 0):
            x = x.args[0]
        if x.op not in ("nonzero", "flatnonzero"):
            return None
        src = truth(x.args[0])
        if any(src is n or src is truth(n) for n in newest):
            out.append(True)
        else:
            out.append(False if src.op in ("getitem", "any", "sum", "param") and known(src) else None)
    return None if None in out else all(out)


# ---- growing the cover -----------------------------------------------------------------------------

def growing(cx):
    box = {}

    def go(_):
        c = copy_of_root(cx)
        cx.eng.setattr(c, "the_cover", cx.p("cover", "array", nd=2))
        cx.eng.setattr(c, "k_num_cliques", cx.p("k", "int"))
        cx.meth(c, "rule_2")
        box["c"] = cx.eng.term(cx.eng.getattr(c, "the_cover"))
    r = cx.run("rule_2", go)
    if r is None or "c" not in box:
        cx.und("grows", "rule_2", None, "not analysed")
    else:
        grown(cx, "rule_2", box["c"], lambda t: is_param(t, "cover"))

    def go2(_):
        return cx.call(B, copy_of_root(cx), cx.p("k", "int"), cx.p("cover", "array", nd=2), cx.p("iteration", "int"), cx.p("iteration_max", "int"))
    r = cx.run("branch", go2)
    from .c29 import calls_in_loops
    cs = [n for n, l in calls_in_loops(r.tree) if l] if r is not None else []
    if not cs:
        cx.und("grows", "branch", None, "no recursive search found")
        return
    a = cs[0].d["args"]
    g, v = a.get("graph"), a.get("the_cover")
    old = r.fterm(g, "the_cover") if g is not None else None
    if v is None or old is None:
        cx.und("grows", "branch", None, "the cover handed to the recursive search is not understood")
        return
    pc = next((e.pc for k in cs[0].kids for e in walk_events(k if isinstance(k, (list, tuple)) else [k])), ())
    while old.op == "phi" and (old.args[0] in pc or T.lnot(old.args[0]) in pc):
        old = old.args[1] if old.args[0] in pc else old.args[2]
    grown(cx, "branch", r.term(v), lambda t: t is old)


def grown(cx, key, t, current):
    for l in leaves_until(t, current):
        loc = next((x for x in l.locs if x), None)
        if current(l):
            continue
        if l.op == "reshape" or l.op == "array" or l.op == "getitem" and l.args[1].op in ("tuple",):
            continue                                               # the first clique
        if l.op in ("vstack", "concat"):
            parts = l.args[0].args if len(l.args) == 1 and l.args[0].op in ("tuple", "list") else l.args
            good = current(parts[0])
            first = peel(parts[0])
            whole = True if good else False if any(current(x) for x in parts[1:]) or first.op in ("param", "getitem", "mu", "const", "phi") else None
            cx.put(whole, "grows", f"{key}: keeps all cliques, newest last", loc, "the new clique is appended to the whole current cover" if good else "the new cover is not the current cover with a clique appended: cliques already chosen are lost or misplaced")
        else:
            cx.und("grows", f"{key}: keeps all cliques, newest last", loc, "the way the cover is extended is not understood")


def leaves_until(t, stop):
    if stop(t) or t.op != "phi":
        return [t]
    return leaves_until(t.args[1], stop) + leaves_until(t.args[2], stop)


# ---- the result ------------------------------------------------------------------------------------

def final(cx):
    r = cx.run("find_clique_min_cover", lambda _: cx.call(M, cx.p("graph", "array", nd=2)))
    t = r.term() if r is not None and r.result is not None else None
    if t is None:
        cx.und("every-vertex", "result", None, "not analysed")
        return
    for l in leaves_until(t, lambda _: False):
        empty = not any(s.op == "mu" for s in T.subterms(l))
        key = "graph without edges" if empty else "graph with edges"
        locs = [e.loc for e in r.ev("return") if e.d["qual"] == M]
        loc = locs[0 if empty else -1] if locs else None
        b = cx.eng.lib.boolish(l)
        cx.put(True if b else False if counted(l) else None, "boolean", key, loc, "boolean result" if b else "the result is not boolean")
        v = everyone(l)
        cx.put(v, "every-vertex", key, loc, "every vertex without a clique gets one" if v else "a vertex may be left without a clique")


def counted(t, seen=()):
    """some entry of t is a plain number, not a truth value"""
    if t in seen:
        return False
    seen = (*seen, t)
    if t.op in ("vstack", "concat"):
        parts = t.args[0].args if len(t.args) == 1 and t.args[0].op in ("tuple", "list") else t.args
        return any(counted(p, seen) for p in parts)
    if t.op in ("phi", "mu"):
        return any(counted(l, seen) for l in leaves(t))
    if t.op in ("store", "reshape", "copy", "array", "asarray"):
        return counted(t.args[0], seen)
    if t.op == "full":
        d = dict(t.kw).get("dtype", t.args[2] if len(t.args) > 2 else None)
        return T.cval(d) in ("int", "float") if d is not None and T.is_const(d) else d is None and T.is_const(t.args[1]) and type(T.cval(t.args[1])) in (int, float)
    return t.op == "param"


def left_out(mask):
    """only a constant part of the positions found is used"""
    if mask.op != "getitem" or mask.args[0].op not in ("flatnonzero", "where1") or mask.args[1].op != "slice" or not all(T.is_const(a) for a in mask.args[1].args):
        return False
    lo, hi, st = (T.cval(a) for a in mask.args[1].args)
    return lo not in (None, 0) and st in (None, 1) or hi is not None or st not in (None, 1, -1)


def everyone(t):
    t = peel(t)
    if t.op not in ("vstack", "concat"):
        looked = any(x.op in ("sum", "any", "all", "max") and axis(x) in (0, -2) and leaves(peel(x.args[0])) & leaves(t) for x in T.subterms(t, through_mu=True))
        return None if looked or t.op not in ("mu", "param", "array", "full", "getitem", "store") else False
    parts = t.args[0].args if len(t.args) == 1 and t.args[0].op in ("tuple", "list") else t.args
    if any(p.op == "eye" for p in parts):
        return True
    for i, p in enumerate(parts):
        rest = [x for j, x in enumerate(parts) if j != i]
        mask = None
        p = peel(p)
        if p.op == "store" and p.args[0].op == "full" and p.args[1].op == "tuple" and len(p.args[1].args) == 2 and (is_c(p.args[2], 1) or is_c(p.args[2], True)):
            row, mask = p.args[1].args
            if left_out(mask):
                return False
            n = row.args[0] if row.op in ("arange", "range") and len(row.args) == 1 else None
            shape = p.args[0].args[0]
            if n is None or shape.op != "tuple" or shape.args[0] is not n or not is_c(p.args[0].args[1], 0) and not is_c(p.args[0].args[1], False):
                return None
            if not (n.op in ("dim", "size", "sum", "count_nonzero") and contains(n, lambda s: s is mask)):
                return None
        elif p.op == "getitem" and p.args[0].op == "eye":
            mask = p.args[1]
        if mask is None:
            continue
        if mask.op in ("flatnonzero", "nonzero"):
            mask = mask.args[0]
        if mask.op in ("not", "invert"):
            x = truth(mask.args[0])
        elif mask.op == "eq" and any(is_c(a, 0) for a in mask.args):
            x = mask.args[1] if is_c(mask.args[0], 0) else mask.args[0]
        else:
            return False if mask.op in ("eq", "ne", "lt", "le", "sum", "any") and known(mask) else None
        if x.op not in ("sum", "any"):
            return None
        if axis(x) not in (0, -2):
            return False if known(x) else None
        src = {truth(x.args[0]), x.args[0]}
        return True if len(rest) == 1 and (rest[0] in src or truth(rest[0]) in src) else None
    return None
