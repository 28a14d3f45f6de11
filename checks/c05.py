from .base import *
from .tools import *
from sa.ranges import Ranges
from sa.regions import Regions, symmetric, leaves

ID, TITLE = "C05", "Estimated dependence graphs are undirected and have no self-loops"
RULE = ("Generic-entry (matrix region) analysis of every estimated dependence graph and p-value matrix: the entry terms below, on and above "
        "the diagonal are derived through triangular stores, transposes, broadcasts and elementwise operations. Obligations: the entries below and "
        "above the diagonal are the same term, the diagonal entry folds to False by interval evaluation, and the graph's element type is bool.")
ASSUMES = ["cov, corrcoef and A @ A.T are symmetric up to rounding", "triu_indices and tril_indices enumerate the triangles"]
WITNESSES = [
    ("medil/independence_testing.py", "np.fill_diagonal(udg, False)", "pass"),
    ("medil/independence_testing.py", "p_vals[idxs, jdxs] = p_vals[jdxs, idxs] =", "p_vals[idxs, jdxs] ="),
    ("medil/independence_testing.py", "samp_size * cov / np.outer(d_bars, d_bars)", "samp_size * cov / d_bars"),
    ("medil/models.py", "udg = udg_triu + udg_triu.T", "udg = udg_triu"),
    ("medil/models.py", "udg = udg_triu + udg_triu.T", "udg = udg_triu + udg_triu[::-1, ::-1]"),
    ("medil/models.py", "udg = udg_triu + udg_triu.T", "udg = udg_triu + np.flip(udg_triu)"),
]


def judge(cx, rg, t, key, diag, graph=True):
    R = Regions(cx.eng, rg)
    l, d, u = R(t)
    s = symmetric(l, u)
    loc = (t.locs or [None])[0]
    cx.put(s, "symmetric", key, loc, f"entry below the diagonal {T.show(l, 5)}; mirrored entry {T.show(u, 5)}" if s is not True else "")
    if diag:
        k = R.truth(d)
        if k is False:
            cx.ok("no-self-loop", key)
        elif k is True or not [x for x in leaves(d) if x.op == "ent" and x.args[0].op not in ("corr", "cov", "matmul", "param")]:
            cx.bad("no-self-loop", key, loc, f"diagonal entry is {T.show(d, 6)}, which is not always False")
        else:
            cx.und("no-self-loop", key, loc, f"diagonal entry {T.show(d, 4)}")
    if graph:
        if cx.eng.lib.boolish(t):
            cx.ok("boolean", key)
        elif t.op in ("opaque",) or t.op == "mu" or opaque_in(t):
            cx.und("boolean", key, loc, f"element type of {T.show(t, 3)} not inferable")
        else:
            num = t.op in ("add", "sub", "mul", "div", "maximum", "minimum", "corr", "cov") or \
                (t.op == "astype" and t.args[1].op == "const" and cval(t.args[1]) in ("int", "float"))
            cx.put(False if num else None, "boolean", key, loc, f"element type of {T.show(t, 3)} is not bool")


def check(cx):
    rg = Ranges(cx.eng)
    G = "medil.models.GaussianMCM"
    if cx.has(G):
        box = {}

        def fit(_):
            d = cx.p("dataset", "ndarray", 2, nonempty=True)
            m = box["m"] = cx.call(G)
            cx.meth(m, "fit", d)
            return m
        r = cx.run("GaussianMCM().fit", fit)
        udg = r.fterm(box["m"], "udg") if r is not None and r.st is not None and box else None
        if udg is not None:
            judge(cx, rg, udg, "GaussianMCM.udg", True)
        else:
            cx.und("symmetric", "GaussianMCM.udg", None, "no estimate found")
    Q = "medil.independence_testing.estimate_UDG"
    if not cx.has(Q):
        return
    for meth in ("dcov_fast", "dcov_big", "xicor"):
        def est(_):
            d = cx.p("sample", "ndarray", 2, nonempty=True)
            return cx.call(Q, d, method=ConstV(meth), significance_level=cx.p("alpha", "float", lo=0, hi=1))
        r = cx.run(f"estimate_UDG({meth})", est)
        if r is None or r.result is None:
            cx.und("symmetric", f"estimate_UDG({meth})", None, "no result")
            continue
        t = r.term()
        parts = list(t.args) if t.op == "tuple" else [t]
        judge(cx, rg, parts[0], f"estimate_UDG({meth}) graph", True)
        for x in parts[1:]:
            if not (x.op == "const"):
                judge(cx, rg, x, f"estimate_UDG({meth}) p-values", False, False)

    def own(_):
        p = cx.p("pvals", "ndarray", 2, nonempty=True)
        return cx.call(Q, cx.p("sample", "ndarray", 2, nonempty=True), method=p, significance_level=cx.p("alpha", "float", lo=0, hi=1))
    r = cx.run("estimate_UDG(p-value matrix)", own)
    if r is not None and r.result is not None:
        t = r.term()
        t = t.args[0] if t.op == "tuple" else t
        R = Regions(cx.eng, rg)
        l, d, u = R(t)
        k = R.truth(d)
        cx.put(True if k is False else (False if k is True or "store" not in ops(t) else None), "no-self-loop", "estimate_UDG(p-value matrix) graph",
               (t.locs or [None])[0], f"diagonal entry {T.show(d, 5)}")
        # a symmetric p-value matrix gives a symmetric graph
        fl = map_term(l, lambda x: mk("ent", x.args, data="S") if x.op == "ent" and x.data in ("L", "U") else None)
        fu = map_term(u, lambda x: mk("ent", x.args, data="S") if x.op == "ent" and x.data in ("L", "U") else None)
        cx.put(True if fl is fu else None, "symmetric", "estimate_UDG(symmetric p-value matrix) graph", None, T.show(l, 4))
