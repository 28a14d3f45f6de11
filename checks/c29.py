from .base import *
from .tools import *
from sa.values import *

ID, TITLE = "C29", "Branches of the exact cover search are isolated"
RULE = ("Abstract heap analysis of the search: the contents of every array, attribute and closure variable reachable from a search node, and of the cover handed to a branch, are compared "
        "as terms before and after each operation is applied to a reduced copy of that node, and before and after a whole call of branch(). They must be unchanged. In branch()'s loop over "
        "alternatives nothing that is carried from one iteration to the next may reach the recursive call.")
ASSUMES = ["a recursive call of branch() does not change the node it is given (the induction hypothesis; it is what is checked for an arbitrary node)"]
TECHNIQUE = "abstract interpretation with alias-tracking heap; before/after comparison of symbolic heap contents; loop-carried dependence"
U, B = "medil.graph.UndirectedDependenceGraph", "medil.ecc_algorithms.branch"
_G, _E = "medil/graph.py", "medil/ecc_algorithms.py"
WITNESSES = [
    (_G, "self.adj_matrix = udg.adj_matrix.copy()", "self.adj_matrix = udg.adj_matrix"),
    (_G, "self.common_neighbors = udg.common_neighbors.copy()", "self.common_neighbors = udg.common_neighbors"),
    (_G, "self.nbrhood_edge_counts = udg.nbrhood_edge_counts.copy()", "self.nbrhood_edge_counts = udg.nbrhood_edge_counts"),
    (_G, "self.reduced_away = udg.reduced_away.copy()", "self.reduced_away = udg.reduced_away"),
    (_G, "open_nbrhood = self.unreduced.adj_matrix[vert].copy()", "open_nbrhood = self.unreduced.adj_matrix[vert]"),
    (_G, "        the_cover = the_cover.copy()\n", ""),
    (_G, "chosen_nbrhood = self.adj_matrix.copy()", "chosen_nbrhood = self.unreduced.adj_matrix"),
    (_E, "            k_num_cliques - 1,\n            union,", "            k_num_cliques := k_num_cliques - 1,\n            union,"),
    (_E, "        union = (\n", "        branch_graph.the_cover = union = (\n"),
    (_E, "    branch_graph = graph.reducible_copy()\n", "    branch_graph = graph.reducible_copy() if the_cover is None else graph\n"),
    (_E, "        the_cover_prime = branch(", "        branch_graph.the_cover = union\n        branch_graph.cover_edges()\n        the_cover_prime = branch("),
]
OPS = ["cover_edges", "rule_1", "rule_2", "rule_3", "reduzieren", "choose_nbrhood", "reconstruct_cover"]


def snap(cx, v, path, out, seen):
    st = cx.eng.st
    for o in leaves(v):
        if isinstance(o, ObjV):
            if o.cid in seen:
                continue
            seen.add(o.cid)
            for n, w in list(st.heap[o.cid].fields.items()):
                out[f"{path}.{n}"] = value(cx, w)
                snap(cx, w, f"{path}.{n}", out, seen)
        elif isinstance(o, FuncV):
            if ("f", o.fid) in seen or o.fid not in st.frames or o.fid in MODS(cx):
                continue
            seen.add(("f", o.fid))
            for n, w in list(st.frames[o.fid].items()):
                if w is o:
                    continue
                out[f"{path}[{n}]"] = value(cx, w)
                snap(cx, w, f"{path}[{n}]", out, seen)
        elif isinstance(o, BoundV):
            snap(cx, o.selfv, path, out, seen)


def MODS(cx):
    return {m.fid for m in cx.eng.mods.values()}


def leaves(v):
    if isinstance(v, PhiV):
        return leaves(v.a) + leaves(v.b)
    return [v]


def value(cx, v):
    try:
        return cx.eng.term(v)
    except Exception:
        return None


def node(cx, deep):
    """an arbitrary search node: the root or an already reduced one"""
    n = cx.call(U, cx.p("graph", "array", nd=2))
    cx.meth(n, "make_aux")
    if deep:
        n = cx.meth(n, "reducible_copy")
        cx.eng.setattr(n, "the_cover", cx.p("cover_so_far", "array", nd=2))
        cx.meth(n, "cover_edges")
        cx.meth(n, "reduzieren", cx.p("k", "int"))
    return n


def state(cx, n, cov):
    out = {}
    snap(cx, n, "node", out, set())
    out["cover"] = value(cx, cov)
    return out


def check(cx):
    if not cx.has(U) or not cx.has(B):
        return
    for deep in (False, True):
        what = "reduced node" if deep else "root"
        for op in OPS:
            box = {}

            def go(_):
                n = node(cx, deep)
                cov = cx.p("cover", "array", nd=2)
                box["a"] = state(cx, n, cov)
                c = cx.meth(n, "reducible_copy")
                cx.eng.setattr(c, "the_cover", cov)
                if op == "reconstruct_cover":
                    cx.eng.setattr(c, "reduced_away", cx.p("away", "array", nd=2)) if not deep else None
                    cx.meth(c, op, cov)
                elif op == "reduzieren":
                    cx.meth(c, op, cx.p("k2", "int"))
                else:
                    cx.meth(c, op)
                box["b"] = state(cx, n, cov)
            r = cx.run(f"{op} on a copy of {what}", go)
            compare(cx, f"{op} on a copy of a {what}", r, box)
        box = {}

        def go2(_):
            n = node(cx, deep)
            cov = cx.p("cover", "array", nd=2)
            box["a"] = state(cx, n, cov)
            v = cx.call(B, n, cx.p("k2", "int"), cov, cx.p("iteration", "int"), cx.p("iteration_max", "int"))
            box["b"] = state(cx, n, cov)
            return v
        r = cx.run(f"branch from {what}", go2)
        compare(cx, f"branch() from a {what}", r, box)
        if r is not None:
            alternatives(cx, what, r)


def compare(cx, key, r, box):
    if r is None or "b" not in box:
        cx.und("parent-unchanged", key, None, "not analysed")
        return
    a, b = box["a"], box["b"]
    bad = [n for n in a if a[n] is None or b.get(n) is None or a[n] is not b[n]]
    if not bad:
        cx.ok("parent-unchanged", key, None, f"{len(a)} attributes, closure variables and arrays compared")
        return
    for n in bad:
        x = b.get(n)
        dark = a[n] is None or x is None or {o for o in opaque_in(x) if o.op != "unset"} - set(opaque_in(a[n]))
        loc = next((l for l in (x.locs if x is not None else ()) if l), None)
        cx.put(None if dark else False, "parent-unchanged", f"{key}: {n}", loc, f"{n} of the node the search came from is changed by {key}")


def calls_in_loops(tree, loops=()):
    for n in tree:
        if isinstance(n, (list, tuple)):
            yield from calls_in_loops(n, loops)
        elif isinstance(n, Node):
            if n.kind == "call" and n.d.get("qual") == B:
                yield n, loops
            inner = (*loops, n.d.get("lid")) if n.kind == "loop" else loops
            yield from calls_in_loops(n.kids, inner)


def alternatives(cx, what, r):
    cs = [(n, l) for n, l in calls_in_loops(r.tree if isinstance(r.tree, (list, tuple)) else [r.tree]) if l]
    if not cs:
        cx.und("alternatives-independent", what, None, "no recursive search inside a loop found")
        return
    for n, loops in cs[:1]:
        lid = loops[-1]
        leaks = {}
        for p, v in n.d["args"].items():
            for t in carried(r.term(v), lid):
                leaks.setdefault(f"argument {p}", t)
        for e in (e for k in n.kids for e in walk_events(k if isinstance(k, (list, tuple)) else [k])):
            for c in (*e.pc, e.d.get("value") if e.kind == "return" else None):
                if isinstance(c, T.Term):
                    for t in carried(c, lid):
                        leaks.setdefault("state used by the search", t)
        for k, t in leaks.items():
            m = T.MU[t.data]
            cx.bad("alternatives-independent", f"{what}: {k}", n.d.get("loc"), f"'{m.get('name')}' is carried from one alternative to the next and reaches the recursive search ({k})")
        if not leaks:
            cx.ok("alternatives-independent", what, n.d.get("loc"), "nothing carried between alternatives reaches the recursive call")


def carried(t, lid):
    return [s for s in T.subterms(t, through_mu=True) if s.op == "mu" and T.MU[s.data].get("loop") == lid]
