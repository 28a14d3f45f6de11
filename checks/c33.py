from .base import *
from .tools import *
from sa.values import *
from sa.encoding import Encoding
from .api import Api

ID, TITLE = "C33", "0/1 integer graphs and boolean graphs mean the same"
RULE = ("Encoding domain over the values every public operation computes from a graph argument (same in both encodings; the graph itself in its own type; a count for integers but a truth value "
        "for booleans; different). Violated by a graph used unconverted to select entries, a bitwise complement, difference or negation of it, a count of common entries used for more than being "
        "non-zero or handed back as a graph, or other values stored in an array that takes its type from the graph.")
ASSUMES = ["graph arguments contain only 0 and 1"]
TECHNIQUE = "abstract interpretation over an encoding domain (expression terms)"
_M, _E, _G, _V, _S, _X = ("medil/models.py", "medil/ecc_algorithms.py", "medil/graph.py", "medil/visualize.py", "medil/sample.py", "medil/evaluate.py")
GRAPHS = {"graph", "biadj", "udg", "adj_matrix", "nbrhood", "cover", "predicted_biadj", "true_biadj", "biadj_mat", "mat", "mcm", "the_cover"}
SKIP = ("min_perm", "show_obs_dcor_mat", "show_pairwise", "ExampleUDG")
WITNESSES = [
    (_M, "        mask = self.biadj.astype(bool)\n        num_weights", "        mask = self.biadj\n        num_weights"),
    (_M, "            biadj_weights[mask] = weights", "            biadj_weights[self.biadj] = weights"),
    (_M, "            biadj_weights = np.zeros_like(self.biadj, float)", "            biadj_weights = np.zeros_like(self.biadj)"),
    (_S, "        mask = biadj.astype(bool)\n", "        mask = biadj\n"),
    (_X, "    true_biadj = true_biadj.astype(int)\n", ""),
    (_X, "    biadj_mat = biadj_mat.astype(bool)\n", ""),
    (_E, "    indep_sets = max_cliques(np.logical_not(graph))", "    indep_sets = max_cliques(~graph)"),
    (_E, "    cover = cover.astype(bool)\n    iso_vert_idx = np.flatnonzero(cover.sum(0) == 0)", "    iso_vert_idx = np.flatnonzero((~cover).all(0))"),
    (_G, "        self.nbrs = lambda edge: np.logical_and(\n            self.adj_matrix[edge[0]], self.adj_matrix[edge[1]]\n        )", "        self.nbrs = lambda edge: self.adj_matrix[edge[0]] + self.adj_matrix[edge[1]] == 2"),
    (_G, "(nbrhood.astype(int) - self.adj_matrix[nbr].astype(int) == -1)", "(nbrhood - self.adj_matrix[nbr] == -1)"),
]


def check(cx):
    n = 0
    for name, r, _ in Api(cx).runs(only=lambda n: not n.startswith(SKIP)):
        if r is None:
            continue
        src = sources(r)
        if not src:
            continue
        n += 1
        judge(cx, name, r, src)


def terms_of(v):
    if isinstance(v, T.Term):
        yield v
    elif isinstance(v, (list, tuple, frozenset, set)):
        for x in v:
            yield from terms_of(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from terms_of(x)


def all_terms(r):
    """every term an event of the run mentions, with the event"""
    for e in r.events:
        for k, v in e.d.items():
            if k in ("origins",):
                continue
            for t in terms_of(v):
                yield e, t
        for t in e.pc:
            yield e, t
    if r.st is not None and r.events:
        for rec in r.st.heap.values():      # what the objects hold afterwards
            if isinstance(getattr(rec, "term", None), T.Term):
                yield r.events[-1], rec.term


def sources(r):
    out, seen = set(), set()
    tops = [t for _, t in all_terms(r)]
    if r.result is not None:
        try:
            tops.append(r.term())
        except Exception:
            pass
    for t in tops:
        if t in seen:
            continue
        for s in subterms(t):
            if s in seen:
                continue
            seen.add(s)
            if s.op == "param" and s.data in GRAPHS:
                out.add(s)
    return out


def judge(cx, name, r, src):
    en = Encoding(cx.eng.lib, src)
    done, where = {}, {}
    for e, t in all_terms(r):
        if t in done:
            continue
        done[t] = e
        if e.kind in ("store", "augitem", "mutate") and t is e.d.get("idx"):
            old = set(en.sites)
            en.index(t, t)
            where.update({k: e.loc for k in en.sites if k not in old})
        for s in subterms(t):
            en.ev(s)
    res = None
    if r.result is not None:
        try:
            res = r.term()
        except Exception:
            res = None
        if res is not None:
            for s in subterms(res):
                en.ev(s)
    bad = False
    for (t, why), sure in en.sites.items():
        loc = where.get((t, why)) or (t.locs[0] if t.locs else None)
        key = f"{loc[2] if loc and len(loc) > 2 else name}|{why.split(':')[0]}"
        bad = bad or sure
        cx.put(False if sure else None, "meaning", key, loc, f"{why} ({T.show(t, 3)}; in {name})")
    # what is handed back
    for e in r.ev("return"):
        v = e.d["value"]
        parts = v.args if v.op == "tuple" else (v,)
        for p in parts:
            if en.ev(p) == "P" and public(e.d["qual"]):
                bad = True
                cx.bad("result", e.d["qual"], e.loc, f"{e.d['qual']} returns a count of common entries for integers and a truth value for booleans")
            elif en.ev(p) == "U" and public(e.d["qual"]):
                cx.und("result", e.d["qual"], e.loc, f"not known how the result of {e.d['qual']} depends on the encoding: {T.show(p, 4)}")
    if not bad:
        cx.ok("meaning", name, None, f"{len(en.memo)} values computed from {', '.join(sorted(s.data for s in src))} mean the same in both encodings")


def public(q):
    return not q.split(".")[-1].startswith("_") and "<" not in q

