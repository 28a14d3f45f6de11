from .base import *
from .tools import *
from sa.values import *
import sa.terms as T
from sa.terms import mk

ID, TITLE = "C44", "Dependence graph edits, tables and exports are exact"
RULE = ("Cell-set and table analysis of the dependence graph object for a symbolic graph and symbolic edges. (1) construction: the stored adjacency is the given one; vertex count is its trace, size its "
        "length. (2) add_edges / rm_edges store exactly the cells (u,v) and (v,u) of every listed edge, with a true / zero value, nothing else. (3) after construction and after every edit the edge count "
        "is the number of entries above the diagonal of the current adjacency. (4) row number of an edge and edge of a row number enumerate the same pairs u<v in the same order, from row 0; the "
        "neighbours of an edge are the vertices adjacent to both ends; every existing edge's neighbours are stored in that edge's own row; the list of existing rows is that of the existing edges; each row's edge count "
        "is (entries of the adjacency within the row's vertices - their number)/2. (5) export: into name.nde, the number of vertices, then one line per vertex with its own degree, then one line "
        "per edge. (6) the graph recovered from a latent structure joins different measurements exactly when they share a latent.")
ASSUMES = ["adjacency matrices are symmetric", "numpy enumerates triu_indices, nonzero and argwhere in row-major order"]
TECHNIQUE = "abstract interpretation to expression terms; store-cell sets, index-table normal forms"
_G, _V = "medil/graph.py", "medil/evaluate.py"
U, RU = "medil.graph.UndirectedDependenceGraph", "medil.evaluate.recover_ug"
_A = "        self.adj_matrix[v_1s, v_2s] = 1\n        self.adj_matrix[v_2s, v_1s] = 1\n"
_R = "        self.adj_matrix[v_1s, v_2s] = 0\n        self.adj_matrix[v_2s, v_1s] = 0\n"
_N = "        self.num_edges = np.triu(self.adj_matrix, 1).sum()\n"
WITNESSES = [
    ("medil/graph.py", 'f.write(str(v1) + " " + str(v2) + "\\n")', 'f.write(str(v1 + 1) + " " + str(v2 + 1) + "\\n")'),
    (_G, _A, "        self.adj_matrix[v_1s, v_2s] = 1\n"),
    (_G, _R, "        self.adj_matrix[v_2s, v_1s] = 0\n"),
    (_G, _A, _A.replace("[v_2s, v_1s]", "[v_2s, v_2s]")),
    (_G, _R, _R + "        self.adj_matrix[v_1s, v_1s] = 0\n"),
    (_G, _R, "        self.adj_matrix[v_1s] = 0\n        self.adj_matrix[:, v_2s] = 0\n"),
    (_G, _A + _N, _A + "        self.num_edges += len(edges)\n"),
    (_G, _A + _N, _N + _A),
    (_G, _R + _N, _R),
    (_G, "        self.num_edges = np.triu(adj_matrix, 1).sum()\n", "        self.num_edges = np.triu(adj_matrix).sum()\n"),
    (_G, "        self.num_vertices = np.trace(adj_matrix)\n", "        self.num_vertices = len(adj_matrix) - 1\n"),
    (_G, "        triu_idx = np.triu_indices(self.max_num_verts, 1)", "        triu_idx = np.tril_indices(self.max_num_verts, -1)"),
    (_G, "np.where(np.triu(np.ones_like(self.adj_matrix), 1))", "np.where(np.triu(self.adj_matrix, 1))"),
    (_G, "np.where(np.triu(np.ones_like(self.adj_matrix), 1))", "np.where(np.tril(np.ones_like(self.adj_matrix), -1))"),
    (_G, "lambda idx: (u[idx], v[idx])", "lambda idx: (v[idx], u[idx])"),
    (_G, "nghbrhd_idx[triu_idx] = np.arange(max_num_edges)", "nghbrhd_idx[triu_idx] = np.arange(1, max_num_edges + 1)"),
    (_G, "lambda edge: nghbrhd_idx[edge[0], edge[1]]", "lambda edge: nghbrhd_idx[edge[1], edge[0]]"),
    (_G, "            self.adj_matrix[edge[0]], self.adj_matrix[edge[1]]\n", "            self.adj_matrix[edge[0]], self.adj_matrix[edge[0]]\n"),
    (_G, "        self.nbrs = lambda edge: np.logical_and(", "        self.nbrs = lambda edge: np.logical_or("),
    (_G, "        self.common_neighbors[extant_nbrs_idx] = extant_nbrs", "        self.common_neighbors[self.extant_edges_idx] = extant_nbrs"),
    (_G, "(nbrhood(edge_idx).sum() - mask(edge_idx).sum()) // 2", "nbrhood(edge_idx).sum() // 2"),
    (_G, "                f.write(str(idx) + \" \" + str(node.sum()) + \"\\n\")", "                f.write(str(node.sum()) + \" \" + str(idx) + \"\\n\")"),
    (_G, "np.argwhere(np.triu(self.adj_matrix)):", "np.argwhere(self.adj_matrix):"),
    (_G, "str(node.sum())", "str(node[idx:].sum())"),
    (_G, "enumerate(self.adj_matrix):\n                f.write", "enumerate(np.triu(self.adj_matrix)):\n                f.write"),
    (_G, "        self.num_edges = np.triu(adj_matrix, 1).sum()\n", "        self.num_edges = np.count_nonzero(adj_matrix) - self.num_vertices\n"),
    (_G, "            f.write(str(self.max_num_verts)", "            f.write(str(self.num_vertices)"),
    (_G, "                f.write(str(v1) + \" \" + str(v2) + \"\\n\")", "                f.write(str(v1) + \" \" + str(v1) + \"\\n\")"),
    (_V, "    np.fill_diagonal(ug, False)\n\n    return ug", "    np.fill_diagonal(ug, True)\n\n    return ug"),
    (_V, "    ug = biadj_mat.T @ biadj_mat\n", "    ug = biadj_mat @ biadj_mat.T\n"),
    (_V, "    biadj_mat = biadj_mat.astype(bool)\n", ""),
]
FULL = (T.const(None), T.const(None), T.const(None))


def column(t, edges):
    """k when t is column k of the list of edges"""
    if t.op in ("copyof", "asarray", "astype", "ravel", "array", "list", "tolist") and t.args and t.args[0].op not in ("many",):
        return column(t.args[0], edges)
    if t.op == "list" and len(t.args) == 1 and t.args[0].op == "many" and len(t.args[0].args) == 2 and t.args[0].data != "maybe":
        b, s = t.args[0].args
        if b.op == "getitem" and b.args[0].op == "elem" and b.args[0].args[0] is edges and s is edges:
            return num(b.args[1])
        return None
    if t.op != "getitem":
        return None
    b, i = t.args
    rev = False
    while b.op in ("getitem", "copyof", "asarray", "astype"):
        if b.op == "getitem" and b.args[1].op == "tuple" and len(b.args[1].args) == 2 and full(b.args[1].args[0]) and back(b.args[1].args[1]):
            rev = not rev
        elif b.op == "getitem":
            break
        b = b.args[0]
    k = None
    if b.op == "getitem" and b.args[0] is edges and b.args[1].op == "slice" and not full(b.args[1]) and all(T.is_const(y) for y in b.args[1].args) and i.op == "tuple" and len(i.args) == 2 and full(i.args[0]):
        return f"column {T.show(i.args[1], 1)} of only some edges"
    if b is edges and i.op == "tuple" and len(i.args) == 2 and full(i.args[0]):
        k = num(i.args[1])
    elif b.op == "T" and T.transpose(b) is edges or b.op == "T" and b.args[0] is edges:
        k = num(i)
    elif b.op == "elem" and b.args[0] is edges or b.op == "getitem" and b.args[0] is edges and loopid(b.args[1]) is not None:
        k = num(i)
    if k is None or k not in (0, 1, -1, -2):
        return None
    k %= 2
    return 1 - k if rev else k


def full(x):
    return x.op == "slice" and all(T.is_c(a, None) for a in x.args) or T.is_c(x, Ellipsis)


def back(x):
    return x.op == "slice" and T.is_c(x.args[2], -1) and T.is_c(x.args[0], None) and T.is_c(x.args[1], None)


def num(x):
    v = T.cval(x) if T.is_const(x) else None
    return v if isinstance(v, int) and not isinstance(v, bool) else None


def cells(t, adj, edges):
    """{(column of the row index, column of the column index): [value]} stored on top of adj, or None"""
    out = {}
    if t is adj or t.op in ("copyof", "array", "asarray") and t.args[0] is adj:
        return out
    if t.op == "mu":
        m = T.MU[t.data]
        a = cells(m["init"], adj, edges)
        b = cells(m["next"], t, edges) if m["next"] is not None else None
        if a is None or b is None:
            return None
        return merge(a, b)
    if t.op == "store":
        a = cells(t.args[0], adj, edges)
        if a is None:
            return None
        ps = index(t.args[1], edges)
        if ps is None:
            return None
        for p in ps:
            a = merge(a, {p: [t.args[2]]})
        return a
    if t.op == "phi":
        return None
    return None


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = v
    return out


def index(i, edges):
    if i.op == "totuple" and i.args[0].op == "T":
        x = i.args[0].args[0]
        if x is edges:
            return [(0, 1)]
        if x.op == "getitem" and x.args[0] is edges and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and full(x.args[1].args[0]) and back(x.args[1].args[1]):
            return [(1, 0)]
        return None
    if i.op in ("ix_", "np:ix_") and len(i.args) == 2:
        p = tuple(column(x, edges) for x in i.args)
        return None if None in p else [("cross",) + p]
    if i.op == "tuple" and len(i.args) == 2:
        a, b = i.args
        if a.op == "concat" and b.op == "concat" and len(a.args) == len(b.args):
            ps = [(column(x, edges), column(y, edges)) for x, y in zip(a.args, b.args)]
            return None if any(None in p for p in ps) else ps
        if full(a) or full(b):
            o = column(b if full(a) else a, edges)
            return None if o is None else [(":", o) if full(a) else (o, ":")]
        p = column(a, edges), column(b, edges)
        return None if None in p else [p]
    k = column(i, edges)
    return None if k is None else [(k, ":")]


def bare(x):
    while x.op in ("astype", "asarray", "array", "copyof"):
        x = x.args[0]
    return x


def count(cx, key, loc, n, now, stale):
    """n is the number of entries above the diagonal of the adjacency `now`"""
    x = n
    while x.op in ("int", "astype", "item", "asarray", "float"):
        x = x.args[0]
    if x.op in ("sum", "count_nonzero", "np:count_nonzero") and len(x.args) == 1 and strip(x.args[0]).op in ("triu", "tril"):
        m = strip(x.args[0])
        k = num(m.args[1]) if len(m.args) > 1 else 0
        base = m.args[0]
        while base.op in ("astype", "asarray", "T"):
            base = base.args[0]
        good = base is now and k == (1 if m.op == "triu" else -1)
        v = True if good else False if base is now and k is not None or base in stale else None
        msg = "entries above the diagonal of the current adjacency" if good else f"counts {T.show(m, 3)}"
    elif x.op == "floordiv" and T.is_c(x.args[1], 2) and x.args[0].op == "sub" and x.args[0].args[0].op == "sum":
        a, b = x.args[0].args
        good = a.args[0] is now and b.op == "trace" and b.args[0] is now
        v, msg = (True, "half the off-diagonal sum") if good else (None, "not understood")
    elif x.op == "floordiv" and T.is_c(x.args[1], 2) and x.args[0].op == "sum" and x.args[0].args[0] is now:
        v, msg = False, "half the sum counts the diagonal"
    elif x.op == "sub" and x.args[0].op in ("sum", "count_nonzero", "np:count_nonzero") and bare(x.args[0].args[0]) in {now} | stale and x.args[1].op == "trace":
        v, msg = False, "the off-diagonal sum has every edge twice"
    else:
        grown = x.op in ("add", "sub") and any(y in stale_counts(stale) for y in x.args)
        old = x in stale_counts(stale)
        v = False if grown or old else None
        msg = f"edge count is {T.show(n, 4)}: not recounted" if v is False else "not understood"
    cx.put(v, "edge-count", key, loc, msg)


def stale_counts(ms):
    return {mk("sum", (mk("triu", (m, T.const(1))),)) for m in ms}


def edits(cx):
    for what, val in ((None, None), ("add_edges", True), ("rm_edges", False)):
        key = what or "construction"
        box = {}

        def go(_):
            a, e = cx.p("adj_matrix", "ndarray", 2, nonempty=True), cx.p("edges", "ndarray", 2, nonempty=True)
            box["a"], box["e"] = cx.eng.term(a), cx.eng.term(e)
            g = cx.call(U, a)
            for n in ("adj_matrix", "num_edges", "num_vertices", "max_num_verts"):
                box["0" + n] = cx.eng.term(cx.eng.getattr(g, n))
            if what:
                cx.meth(g, what, e)
            for n in ("adj_matrix", "num_edges", "num_vertices", "max_num_verts"):
                box[n] = cx.eng.term(cx.eng.getattr(g, n))
            return g
        r = cx.run(key, go)
        if r is None or "max_num_verts" not in box:
            cx.und("edit", key, None, "no result")
            continue
        a, e, now = box["a"], box["e"], box["adj_matrix"]
        loc = now.locs[0] if now.locs else box["num_edges"].locs[0] if box["num_edges"].locs else None
        if what is None:
            x = now
            while x.op in ("copyof", "array", "asarray", "astype"):
                x = x.args[0]
            cx.put(x is a or x.op == "T" and x.args[0] is a or (False if x.op in ("store", "not", "neg", "triu", "tril") else None), "construction", "adjacency", loc, f"adjacency is {T.show(now, 3)}")
            for n, w in (("num_vertices", [mk("trace", (y,)) for y in (a, now)]), ("max_num_verts", [mk("dim", (y,), data=k) for y in (a, now) for k in (0, 1)])):
                t = box[n]
                simple = t.op in ("dim", "const", "trace", "add", "sub", "sum") and all(y.op in ("dim", "const", "trace", "param", "add", "sub", "sum", "triu") for y in subterms(t))
                eq = t in w or t.op == "sum" and t.args and t.args[0].op in ("diag", "diagonal") and t.args[0].args[0] in (a, now)
                cx.put(True if eq else False if simple else None, "construction", n, t.locs[0] if t.locs else loc, f"{n} is {T.show(t, 3)}")
            count(cx, key, box["num_edges"].locs[0] if box["num_edges"].locs else loc, box["num_edges"], now if "triu" not in T.show(now, 1) else now, {a} - {now}) if now is not a else count(cx, key, loc, box["num_edges"], a, set())
            continue
        base = box["0adj_matrix"]
        c = cells(now, base, e)
        if c is None:
            cx.put(None, "edit-cells", key, loc, f"{T.show(now, 4)} not understood")
        else:
            cx.put(set(c) == {(0, 1), (1, 0)}, "edit-cells", key, loc, f"cells stored: {sorted(c, key=str)}" + ("" if set(c) == {(0, 1), (1, 0)} else "; expected exactly (u, v) and (v, u)"))
            for k, vs in sorted(c.items(), key=str):
                for v in vs:
                    cx.put((False if v.op in ("add", "sub", "not", "xor", "invert") and any(y.op == "getitem" and (y.args[0] is base or y.args[0].op in ("store", "mu")) for y in v.args) else None) if not T.is_const(v) else bool(T.cval(v)) == val, "edit-value", f"{key} {k}", loc, f"value {T.show(v, 2)}")
        count(cx, key, box["num_edges"].locs[0] if box["num_edges"].locs else loc, box["num_edges"], now, {base})


# ---------------------------------------------------------------- tables
def gen(t, adj):
    """enumeration of pairs -> (triangle, offset, all pairs or those of the graph)"""
    if t.op in ("triu_indices", "tril_indices", "np:tril_indices"):
        k = num(t.args[1]) if len(t.args) > 1 else 0
        return ("u" if t.op == "triu_indices" else "l", k, "all") if k is not None and t.args[0].op in ("dim", "len") else None
    if t.op in ("triu_indices_from", "np:triu_indices_from"):
        return ("u", num(t.args[1]) if len(t.args) > 1 else 0, "all")
    if t.op in ("nonzero", "argwhere", "where", "np:nonzero") and len(t.args) == 1:
        m = t.args[0]
        if m.op in ("triu", "tril"):
            k = num(m.args[1]) if len(m.args) > 1 else 0
            b, u = m.args[0], "u" if m.op == "triu" else "l"
        elif m.op in ("full",) or strip(m) is adj:
            b, k, u = m, None, "both"
        else:
            return None
        if b.op in ("full", "ones") and (b.op == "ones" or len(b.args) > 1 and T.is_const(b.args[1]) and T.cval(b.args[1])):
            return (u, k, "all")
        return (u, k, "adj") if strip(b) is adj else None
    if t.op == "T" and t.args:
        return gen(t.args[0], adj)
    return None


def strip(x):
    while x.op in ("astype", "asarray", "copyof", "array"):
        x = x.args[0]
    return x


def tables(cx):
    box = {}

    def go(_):
        a = cx.p("adj_matrix", "ndarray", 2, nonempty=True)
        g = cx.call(U, a)
        box["adj"] = cx.eng.term(cx.eng.getattr(g, "adj_matrix"))
        cx.meth(g, "make_aux")
        u, v, i = (cx.p(n, "int", lo=0) for n in ("u", "v", "i"))
        box["u"], box["v"], box["i"] = (cx.eng.term(x) for x in (u, v, i))
        box["idx"] = cx.eng.term(cx.eng.callv(cx.eng.getattr(g, "get_idx"), [TupV([u, v])], {}))
        box["edge"] = cx.eng.term(cx.eng.callv(cx.eng.getattr(g, "get_edge"), [i], {}))
        box["nbrs"] = cx.eng.term(cx.eng.callv(cx.eng.getattr(g, "nbrs"), [TupV([u, v])], {}))
        for n in ("common_neighbors", "extant_edges_idx", "nbrhood_edge_counts"):
            box[n] = cx.eng.term(cx.eng.getattr(g, n))
        return g
    r = cx.run("make_aux", go)
    if r is None or "nbrhood_edge_counts" not in box:
        cx.und("tables", "make_aux", None, "no result")
        return
    adj, u, v, i = box["adj"], box["u"], box["v"], box["i"]
    at = lambda n: box[n].locs[0] if box[n].locs else None
    # edge -> row
    t, fwd = box["idx"], None
    while t.op in ("int", "item", "astype"):
        t = t.args[0]
    if t.op == "getitem" and t.args[0].op == "store" and t.args[1].op == "tuple":
        base, where, vals = t.args[0].args
        g = gen(where, adj)
        order = [x for x in t.args[1].args]
        ok0 = base.op == "full" or base.op == "zeros"
        if g and ok0 and vals.op in ("arange", "range"):
            want = {"u": [u, v], "l": [v, u]}.get(g[0])
            good = order == want and g[1] == (1 if g[0] == "u" else -1) and g[2] == "all" and len(vals.args) == 1
            simple = set(order) <= {u, v}
            cx.put(True if good else False if simple else None, "edge-row", "get_idx", at("idx"), f"row of (u, v), u < v, looked up as {[T.show(x, 1) for x in order]} in a table over {g} numbered by {T.show(vals, 3)}")
            fwd = g if good else None
        elif g and vals.op == "getitem" and vals.args[0].op in ("arange", "range") and back(vals.args[1]):
            cx.put(False, "edge-row", "get_idx", at("idx"), "rows numbered backwards")
        else:
            cx.put(None, "edge-row", "get_idx", at("idx"), "table not understood")
    else:
        cx.put(None, "edge-row", "get_idx", at("idx"), "not a table lookup")
    # row -> edge
    t = box["edge"]
    back_ = None
    if t.op == "tuple" and len(t.args) == 2:
        cs = [comp(x, i) for x in t.args]
        if None not in cs and cs[0][0] is cs[1][0]:
            g = gen(cs[0][0], adj)
            if g:
                ks = [c[1] for c in cs]
                good = g[0] in "ul" and ks == ([0, 1] if g[0] == "u" else [1, 0]) and g[1] == (1 if g[0] == "u" else -1) and g[2] == "all"
                cx.put(good, "row-edge", "get_edge", at("edge"), f"row i is entry i of {g}, components {ks}")
                back_ = g
    if back_ is None:
        shifted = t.op == "tuple" and any(y.op in ("add", "sub") and i in y.args and all(y2 is i or T.is_const(y2) for y2 in y.args) for y in subterms(t))
        cx.put(False if shifted else None, "row-edge", "get_edge", at("edge"), "another row's edge" if shifted else "not understood")
    elif fwd:
        cx.put(fwd == back_, "tables-inverse", "get_idx, get_edge", at("edge"), f"{fwd} and {back_}")
    # neighbours of an edge
    t = box["nbrs"]

    def rows(x):
        x = strip(x)
        if x.op != "getitem" or strip(x.args[0]) is not adj:
            return None
        i = x.args[1]
        if i.op == "tuple" and len(i.args) == 2 and (full(i.args[0]) or full(i.args[1])):
            return i.args[1] if full(i.args[0]) else i.args[0]
        return i
    nb = strip(t)
    if nb.op in ("and", "band", "mul", "or", "bor", "minimum", "maximum", "xor") and len(nb.args) == 2 and all(rows(x) for x in nb.args):
        got = {rows(x) for x in nb.args}
        cx.put(nb.op in ("and", "band", "mul", "minimum") and got == {u, v}, "neighbours", "nbrs", at("nbrs"), f"{nb.op} of the rows {sorted(T.show(x, 1) for x in got)}")
    elif rows(nb):
        cx.put(False, "neighbours", "nbrs", at("nbrs"), f"only the row {T.show(rows(nb), 1)}")
    else:
        cx.put(None, "neighbours", "nbrs", at("nbrs"), "not understood")
    # each edge's neighbours in its own row
    ix = lambda e: T.subst(box["idx"], {u: mk("getitem", (e, T.const(0))), v: mk("getitem", (e, T.const(1)))})
    nbv = lambda e: T.subst(box["nbrs"], {u: mk("getitem", (e, T.const(0))), v: mk("getitem", (e, T.const(1)))})
    t = strip(box["common_neighbors"])
    src = None
    if t.op == "store":
        a, b = (listed(x) for x in t.args[1:])
        if a and b:
            ea, eb = elem_of(a[0]), elem_of(b[0])
            if ea is not None and eb is not None and ea.args[0] is a[1] and eb.args[0] is b[1]:
                good = a[1] is b[1] and strip(a[0]) is strip(ix(ea)) and strip(b[0]) is strip(nbv(eb))
                g = gen(a[1], adj)
                src = a[1]
                cx.put(True if good and g == ("u", 1, "adj") else False if good and g else None, "own-row", "common_neighbors", at("common_neighbors"), f"one row per entry of {g}" if good else "rows or neighbours not understood")
            else:
                cx.put(None, "own-row", "common_neighbors", at("common_neighbors"), "not understood")
        else:
            other = strip(t.args[1])
            bad = other.op in ("fromiter", "sorted") and any(x.op == "list" and x.data == "set" or x.op == "set" for x in subterms(other)) and b
            cx.put(False if bad else None, "own-row", "common_neighbors", at("common_neighbors"), "rows in the order of a set, neighbours in the order of the edges" if bad else "not understood")
    elif t.op == "mu":
        n = T.MU[t.data]["next"]
        good = n is not None and n.op == "store" and n.args[0] is t and elem_of(n.args[1]) is not None and strip(n.args[1]) is strip(ix(elem_of(n.args[1]))) and strip(n.args[2]) is strip(nbv(elem_of(n.args[1])))
        cx.put(True if good else None, "own-row", "common_neighbors", at("common_neighbors"), "stored per edge" if good else "not understood")
    else:
        cx.put(None, "own-row", "common_neighbors", at("common_neighbors"), "not understood")
    t = box["extant_edges_idx"]
    a = listed(t, True)
    if a and elem_of(a[0]) is not None:
        g = gen(a[1], adj)
        good = strip(a[0]) is strip(ix(elem_of(a[0])))
        cx.put(True if good and g == ("u", 1, "adj") else False if good and g else None, "extant-rows", "extant_edges_idx", at("extant_edges_idx"), f"rows of {g}")
    else:
        cx.put(None, "extant-rows", "extant_edges_idx", at("extant_edges_idx"), "not understood")
    counts(cx, box, adj, at("nbrhood_edge_counts"))


def comp(x, i):
    """x = G[k][i] or G[i][k]"""
    while x.op in ("int", "item", "astype"):
        x = x.args[0]
    if x.op != "getitem":
        return None
    b, j = x.args
    if j.op == "tuple" and len(j.args) == 2 and j.args[0] is i and num(j.args[1]) in (0, 1):
        return b, num(j.args[1])
    if b.op == "getitem":
        if j is i and num(b.args[1]) in (0, 1):
            return b.args[0], num(b.args[1])
        if num(j) in (0, 1) and b.args[1] is i:
            return b.args[0], num(j)
    return None


def listed(t, unordered=False):
    """[body for e in source] -> (body, source)"""
    while t.op in ("astype", "asarray", "array", "fromiter", "vstack", "stack", "copyof", "sorted", "sortedby", "unique", "list", "set", "gen", "iter") and t.args:
        if len(t.args) == 1 and t.args[0].op == "many":
            m = t.args[0]
            return (m.args[0], m.args[1]) if len(m.args) == 2 and m.data != "maybe" and (unordered or t.data != "set" and t.op != "set") else None
        t = t.args[0]
    return None


def elem_of(body):
    es = {x for x in subterms(body) if x.op == "elem"}
    return es.pop() if len(es) == 1 else None


def counts(cx, box, adj, loc):
    a = listed(box["nbrhood_edge_counts"])
    key = "nbrhood_edge_counts"
    if not a:
        cx.put(None, "row-counts", key, loc, "not understood")
        return
    body, src = a
    e = elem_of(T.subst(body, {box["common_neighbors"]: mk("CN")}))
    if e is None or src.op not in ("arange", "range") or len(src.args) != 1 or e.args[0].op not in ("arange", "range") or e.args[0].args != src.args:
        cx.put(None, "row-counts", key, loc, "not one count per row")
        return
    CN = mk("CN")
    body = T.subst(body, {box["common_neighbors"]: CN})
    m = lambda x: strip(x).op == "getitem" and strip(x).args[0] is CN and strip(x).args[1] is e
    x = body
    while x.op in ("int", "astype", "item"):
        x = x.args[0]

    def inside(s):
        """entries of the adjacency within the row's vertices"""
        if s.op != "sum" or len(s.args) != 1:
            return False
        y = strip(s.args[0])
        if y.op == "getitem" and y.args[1].op == "tuple" and len(y.args[1].args) == 2 and full(y.args[1].args[0]) and m(y.args[1].args[1]):
            z = strip(y.args[0])
            return z.op == "getitem" and strip(z.args[0]) is adj and m(z.args[1])
        if y.op == "getitem" and y.args[1].op in ("ix_", "np:ix_"):
            return strip(y.args[0]) is adj and all(m(q) for q in y.args[1].args)
        return False
    rng = src.args[0]
    base = strip(box["common_neighbors"])
    while base.op in ("store", "mu"):
        base = base.args[0] if base.op == "store" else T.MU[base.data]["init"]
    shape = base.args[0] if base.op in ("full", "zeros") and base.args else None
    total = shape.args[0] if shape is not None and shape.op in ("tuple", "list") and shape.args else None
    cx.put(True if rng is total or rng.op == "dim" and rng.data == 0 and rng.args[0] is CN else False if any(y.op == "triu" for y in subterms(rng)) else None, "row-counts", f"{key} rows", loc, f"one count for each of {T.show(rng, 3)} rows")
    size = lambda s: s.op == "sum" and len(s.args) == 1 and m(s.args[0])
    if x.op in ("floordiv", "div") and T.is_const(x.args[1]):
        n, d = x.args
        if n.op == "sub" and inside(n.args[0]) and size(n.args[1]):
            cx.put(T.is_c(d, 2), "row-counts", key, loc, f"(entries within the row's vertices - their number) / {T.cval(d)}")
            return
        part = lambda y: y.op == "sum" and len(y.args) == 1 and strip(y.args[0]).op == "getitem" and strip(strip(y.args[0]).args[0]) is adj and m(strip(y.args[0]).args[1])
        if n.op == "sub" and (inside(n.args[0]) and n.args[1].op in ("dim", "trace", "const") or part(n.args[0]) and size(n.args[1])):
            cx.put(False, "row-counts", key, loc, f"{T.show(n, 3)} is not the entries within the row's vertices less their number")
            return
        if inside(n) or n.op == "add" and any(inside(y) for y in n.args) and any(size(y) for y in n.args):
            cx.put(False, "row-counts", key, loc, "the diagonal is not taken off")
            return
    cx.put(False if n_plain(x, inside, size) else None, "row-counts", key, loc, "not understood")


def n_plain(x, inside, size):
    return inside(x) or x.op == "sub" and inside(x.args[0]) and size(x.args[1])


# ---------------------------------------------------------------- export
def export(cx):
    box = {}

    def go(_):
        a, n = cx.p("adj_matrix", "ndarray", 2, nonempty=True), cx.p("name", "str")
        g = cx.call(U, a)
        box["adj"], box["name"] = cx.eng.term(cx.eng.getattr(g, "adj_matrix")), cx.eng.term(n)
        box["a"] = cx.eng.term(a)
        cx.meth(g, "convert_to_nde", n)
        return g
    r = cx.run("convert_to_nde", go)
    if r is None or "adj" not in box:
        cx.und("export", "convert_to_nde", None, "no result")
        return
    adj, key = box["adj"], "convert_to_nde"
    opens = [e for e in r.events if e.kind == "open"]
    for e in opens:
        p = cx.eng.term(e.d["path"]) if not isinstance(e.d["path"], T.Term) else e.d["path"]
        want = T.strcat([box["name"], T.const(".nde")])
        cx.put(True if p is want else False if p is box["name"] or p.op == "strcat" and p.args[0] is box["name"] else None, "export-file", key, e.loc, f"written to {T.show(p, 3)}")
        mode = e.d.get("mode")
        mode = T.cval(mode) if isinstance(mode, T.Term) and T.is_const(mode) else mode.v if isinstance(mode, ConstV) else mode
        if isinstance(mode, str):
            cx.put("w" in mode or "x" in mode, "export-file", f"{key} mode", e.loc, f"mode {mode}")
    ws = [e for e in r.events if e.kind == "write"]
    lines = []
    for e in ws:
        w = e.d["what"]
        w = w if isinstance(w, T.Term) else cx.eng.term(w)
        lines.append((e, parts(w), [c for c in e.pc]))
    if len(lines) != 3 or any(p is None for _, p, _ in lines):
        cx.put(None, "export-lines", key, None, f"{len(lines)} write sites")
        return
    size = {mk("dim", (y,), data=k) for y in (adj, box["a"]) for k in (0, 1)}
    (e0, p0, c0), (e1, p1, c1), (e2, p2, c2) = lines
    loops = [[c for c in cs if c.op == "inloop"] for cs in (c0, c1, c2)]
    conds = [[c for c in cs if c.op != "inloop" and not (c.op == "not" and c.args[0].op == "brk")] for cs in (c0, c1, c2)]
    for e, cs, l in zip((e0, e1, e2), conds, loops):
        if l and any(loopid(y) is not None or y.op == "elem" for c in cs for y in subterms(c)):
            cx.put(False, "export-lines", f"{key} skipped lines", e.loc, "written for some of the vertices or edges only")
            return
    if any(conds) or [len(x) for x in loops] != [0, 1, 1]:
        cx.put(None, "export-lines", key, e0.loc, "not one header, one loop over vertices and one over edges")
        return
    plain = lambda p: len(p) == 1 and all(x.op in ("dim", "trace", "const", "param", "sub", "add", "sum", "triu", "store", "tuple", "slice") for x in subterms(p[0]))
    cx.put(p0 and len(p0) == 1 and p0[0] in size or (False if plain(p0) else None), "export-lines", f"{key} header", e0.loc, f"header {[T.show(x, 2) for x in p0]}")
    # vertices
    v = None
    if len(p1) == 2:
        a, b = ((loopid(x), degree(x, adj)) for x in p1)
        if a[0] is not None and b[1] is not None:
            v = a[0] == b[1]
        elif a[1] is not None and b[0] is not None:
            v = False
        elif a[0] is not None and b[0] is not None:
            v = False
        elif a[0] is not None and partial(p1[1], adj):
            v = False
        else:
            shift = lambda x: x.op in ("add", "sub") and len(x.args) == 2 and [y for y in x.args if not T.is_const(y)][:1]
            z = [(shift(x) or [x])[0] for x in p1]
            if any(shift(x) and len([y for y in x.args if T.is_const(y)]) == 1 for x in p1) and loopid(z[0]) is not None and degree(z[1], adj) is not None:
                v = False
    cx.put(v, "export-lines", f"{key} vertices", e1.loc, f"vertex line {[T.show(x, 3) for x in p1]}")
    # edges
    numbered, v, msg = v, None, "not understood"
    if len(p2) == 2:
        off = [[y for y in x.args if not T.is_const(y)] if x.op in ("add", "sub") and len(x.args) == 2 else [x] for x in p2]
        if numbered and all(len(o) == 1 and pairof(o[0]) is not None for o in off) and any(o[0] is not x for o, x in zip(off, p2)):
            v, msg = False, "the edge lines number the vertices differently from the vertex lines"
        cs = [pairof(x) for x in p2]
        if None not in cs:
            g = gen(cs[0][0].args[0], adj) if cs[0][0] is cs[1][0] else None
            if g:
                ks = {c[1] for c in cs}
                v = ks == {0, 1} and g[0] in ("u", "l") and g[2] == "adj" and g[1] in (0, 1, -1)
                msg = f"edge lines over {g}, components {sorted(ks)}"
    cx.put(v, "export-lines", f"{key} edges", e2.loc, msg)


def parts(w):
    """numbers written on one line"""
    if w.op == "tuple":
        return list(w.args)
    if w.op in ("dim", "elem", "index", "getitem"):
        return [w]
    if w.op != "strcat":
        return None
    out = []
    for x in w.args:
        if x.op == "tostr":
            out.append(x.args[0])
        elif not T.is_const(x):
            return None
    return out


def loopid(x):
    if x.op == "index" or x.op == "elem" and x.args[0].op in ("range", "arange") and len(x.args[0].args) == 1:
        return x.data
    return None


def degree(x, adj):
    """loop whose row is summed"""
    while x.op in ("int", "item", "astype"):
        x = x.args[0]
    if x.op == "sum" and len(x.args) == 1 and not x.kw:
        y = strip(x.args[0])
        if y.op == "getitem" and strip(y.args[0]) is adj and loopid(y.args[1]) is not None:
            return loopid(y.args[1])
        if y.op == "elem" and strip(y.args[0]) is adj:
            return y.data
    if x.op == "elem" and x.args[0].op == "sum" and strip(x.args[0].args[0]) is adj and (dict(x.args[0].kw).get("axis") or mk("x")).op == "const":
        return x.data
    return None


def partial(x, adj):
    """a sum over part of a row: beyond a slice bound, or of one triangle"""
    while x.op in ("int", "item", "astype"):
        x = x.args[0]
    if x.op != "sum" or len(x.args) != 1 or x.kw:
        return False
    y = x.args[0]
    if y.op == "getitem" and y.args[1].op == "slice" and degree(mk("sum", (y.args[0],)), adj) is not None:
        return any(not T.is_c(a, None) and not (k == 0 and T.is_c(a, 0)) for k, a in enumerate(y.args[1].args))
    if y.op in ("elem", "getitem") and strip(y.args[0]).op in ("triu", "tril"):
        t = strip(y.args[0])
        return strip(t.args[0]) is adj and (len(t.args) < 2 or num(t.args[1]) in (-1, 0, 1))
    return False


def pairof(x):
    while x.op in ("int", "item", "astype"):
        x = x.args[0]
    if x.op == "getitem" and x.args[0].op == "elem" and num(x.args[1]) in (0, 1):
        return x.args[0], num(x.args[1])
    return None


# ---------------------------------------------------------------- recovered graph
def recovered(cx):
    box = {}

    def go(_):
        b = cx.p("biadj_mat", "ndarray", 2, nonempty=True)
        box["b"] = cx.eng.term(b)
        return cx.call(RU, b)
    r = cx.run("recover_ug", go)
    if r is None:
        return
    t, b = r.term(), box["b"]
    loc = t.locs[0] if t.locs else None
    key = "recover_ug"
    x = strip(t)
    if x.op in ("triu", "tril"):
        cx.put(False, "recovered-edges", key, loc, "only one triangle is kept")
        return
    if x.op in ("and", "band", "mul") and len(x.args) == 2 and any(off_diagonal(y) for y in x.args):
        cx.put(True, "recovered-diagonal", key, loc, "diagonal masked out")
        x = strip([y for y in x.args if not off_diagonal(y)][0])
    elif x.op == "store" and (x.args[1].op == "diagidx" or x.args[1].op == "tuple" and len(x.args[1].args) == 2 and x.args[1].args[0] is x.args[1].args[1] and x.args[1].args[0].op in ("arange", "range") and len(x.args[1].args[0].args) == 1):
        cx.put(None if not T.is_const(x.args[2]) else not T.cval(x.args[2]), "recovered-diagonal", key, loc, f"diagonal set to {T.show(x.args[2], 2)}")
        x = strip(x.args[0])
    elif x.op == "matmul":
        cx.put(False, "recovered-diagonal", key, loc, "self-loops are kept")
    else:
        cx.put(None, "recovered-diagonal", key, loc, "not understood")
    pos = False
    if x.op in ("lt", "le", "ne") and len(x.args) == 2 and x.args[0].op == "const" and x.args[1].op == "matmul":
        pos = x.op == "lt" and T.is_c(x.args[0], 0)
        if not pos:
            cx.put(False if T.is_const(x.args[0]) and isinstance(T.cval(x.args[0]), (int, float)) and T.cval(x.args[0]) >= 1 and not (x.op == "le" and T.cval(x.args[0]) <= 1) else None, "recovered-edges", key, loc, f"joined when {T.show(x, 3)}")
            return
        x = x.args[1]
    if x.op == "matmul" and len(x.args) == 2:
        p, q = x.args
        tp, tq = strip(p), strip(q)
        boolean = all(any(y.op == "astype" and len(y.args) > 1 and str(T.cval(y.args[1]) if T.is_const(y.args[1]) else "").endswith("bool") for y in subterms(z)) for z in (p, q))
        inner = lambda z: strip(z.args[0]) if z.op == "T" else z
        if inner(tp) is b and inner(tq) is b:
            good = tp.op == "T" and tq.op != "T"
            cx.put(good, "recovered-edges", key, loc, "measurements joined through their latents" if good else f"product {T.show(x, 4)}")
            if good:
                cx.put(boolean or pos, "recovered-boolean", key, loc, "boolean product" if boolean or pos else "the product counts shared latents instead of telling whether there are any")
            return
    cx.put(None, "recovered-edges", key, loc, "not understood")


def off_diagonal(y):
    return y.op in ("not", "invert") and y.args[0].op == "eye" or y.op == "sub" and T.is_c(y.args[0], 1) and y.args[1].op == "eye"


def check(cx):
    if cx.has(U):
        edits(cx)
        tables(cx)
        export(cx)
    if cx.has(RU):
        recovered(cx)
