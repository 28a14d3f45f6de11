from .base import *
from .tools import *
from sa.units import Units, U, Var, INV, ZERO

ID, TITLE = "C04", "Structure learning ignores measurement units and offsets"
RULE = ("Unit-of-measurement type analysis (dimension inference with per-column units and offsets) over the value-flow term of "
        "every estimated dependence graph, every computed p-value matrix and the data on which the neural model is trained. "
        "Obligation: the inferred unit is empty and no offset remains; adding, comparing, clipping, averaging or taking a "
        "logarithm of values in different (or any) measurement units is reported at its source line.")
ASSUMES = ["cov, corrcoef, StandardScaler, rankdata, pdist and the dcor t-test have their documented units"]
WITNESSES = [
    ("medil/models.py", "1 - corr**2", "1 - np.cov(self.dataset, rowvar=False) * corr"),
    ("medil/models.py", "train_split = standardized[split_idcs[0]]", "train_split = dataset[split_idcs[0]]"),
    ("medil/independence_testing.py", "samp_size * cov / np.outer(d_bars, d_bars)", "samp_size * cov / d_bars.mean() ** 2"),
    ("medil/independence_testing.py", "samp_size * cov / np.outer(d_bars, d_bars)", "samp_size * cov"),
]


def verdict(cx, t, src, rule, key):
    un = Units(cx.eng.lib, {src: U({-1: 1}, True)})
    if not contains(t, src):
        cx.und(rule, key, None, "does not depend on the data")
        return
    try:
        u = un(t)
    except RecursionError:
        u = None
    loc = None
    if isinstance(u, Var):
        loc = (u.term.locs or [None])[0]
        cx.bad(rule, key, loc, f"{u.why}: {T.show(u.term, 4)}")
    elif u is None:
        cx.und(rule, key, None, "unit not inferable")
    elif u is ZERO or u.inv:
        cx.ok(rule, key, None, "unit-free")
    else:
        cx.bad(rule, key, (t.locs or [None])[0], f"result still carries measurement units or offsets: {u!r}")


def check(cx):
    lib = cx.eng.lib
    G = "medil.models.GaussianMCM"
    if cx.has(G):
        box = {}

        def fit(_):
            d = cx.p("dataset", "ndarray", 2, nonempty=True)
            box["d"] = cx.eng.term(d)
            m = box["m"] = cx.call(G)
            cx.meth(m, "fit", d)
            return m
        r = cx.run("GaussianMCM().fit", fit)
        if r is not None and r.st is not None:
            udg = r.fterm(box["m"], "udg")
            if udg is not None:
                verdict(cx, udg, box["d"], "estimated-graph-unit-free", "GaussianMCM.udg")
            b = r.fterm(box["m"], "biadj")
            if b is not None and udg is not None and contains(b, box["d"], stop=(udg,)):
                verdict(cx, b, box["d"], "estimated-graph-unit-free", "GaussianMCM.biadj")
    Q = "medil.independence_testing.estimate_UDG"
    if cx.has(Q):
        for meth in ("dcov_fast", "dcov_big", "xicor"):
            box = {}

            def est(_):
                d = cx.p("sample", "ndarray", 2, nonempty=True)
                box["d"] = cx.eng.term(d)
                return cx.call(Q, d, method=ConstV(meth), significance_level=cx.p("alpha", "float", lo=0, hi=1))
            r = cx.run(f"estimate_UDG({meth})", est)
            if r is None or r.result is None:
                continue
            t = r.term()
            parts = list(t.args) if t.op == "tuple" else [t]
            for n, x in zip(("graph", "p-values"), parts):
                if x.op == "const":
                    continue
                verdict(cx, x, box["d"], "estimated-graph-unit-free", f"estimate_UDG({meth}) {n}")
    N = "medil.models.NeuroCausalFactorAnalysis"
    if cx.has(N):
        for split in (False, True):
            neural(cx, N, split)


def neural(cx, N, split):
    box = {}

    def fit(_):
        d = cx.p("dataset", "ndarray", 2, nonempty=True)
        box["d"] = cx.eng.term(d)
        m = cx.call(N, path=cx.p("path", "str"))
        kw = {"split_idcs": TupV([cx.p("tr", "ndarray", 1), cx.p("va", "ndarray", 1)])} if split else {}
        cx.meth(m, "fit", d, **kw)
        return m
    r = cx.run(f"NCFA.fit(split={split})", fit)
    if r is None:
        return
    seen = set()
    for e in r.ev("ctor"):
        if e.d["name"].rsplit(".", 1)[-1] in ("TensorDataset", "DataLoader"):
            for x in e.d["args"]:
                if contains(x, box["d"]) and x not in seen:
                    seen.add(x)
                    un = Units(cx.eng.lib, {box["d"]: U({-1: 1}, True)})
                    verdict(cx, x, box["d"], "training-data-unit-free", f"NCFA.fit(split={split}): {e.d['name'].rsplit('.', 1)[-1]} data {len(seen)}")
    if not seen:
        cx.und("training-data-unit-free", f"NCFA.fit(split={split})", None, "no loader data seen")
