from .base import *
from .tools import *

ID, TITLE = "C02", "A supplied causal or dependence graph is used as given by fit"
RULE = ("Provenance (def-use) analysis of the graph attributes under a size fact. fit is interpreted abstractly with a "
        "non-empty latent graph, with a non-empty dependence graph only, and with neither. Obligations: the latent graph "
        "reported afterwards is the supplied value (up to boolean representation); with only a dependence graph, the "
        "reported latent graph is a function of that graph and not of the dataset and the dependence graph is unchanged; "
        "with neither, both are functions of the dataset given to fit; the loadings' support mask is the reported graph.")
G = "medil.models.GaussianMCM"
WITNESSES = [
    ("medil/models.py", "        if self.biadj.size == 0:\n            self._compute_biadj()\n\n        self.parameters.error_means",
     "        self._compute_biadj()\n\n        self.parameters.error_means"),
    ("medil/models.py", "        \"\"\"Constraint-based structure learning.\"\"\"\n        if self.udg.size == 0:\n            self._estimate_udg()",
     "        \"\"\"Constraint-based structure learning.\"\"\"\n        self._estimate_udg()"),
]


def check(cx):
    if not cx.has(G):
        return
    for given in ("biadj", "udg", "both", "none"):
        for opc in (True, False):
            scenario(cx, given, opc)


def scenario(cx, given, opc):
    box = {}

    def fn(_):
        kw = {"one_pure_child": ConstV(opc)}
        names = {"biadj": ["biadj"], "udg": ["udg"], "both": ["biadj", "udg"], "none": []}[given]
        for n in names:
            kw[n] = cx.p("given_" + n, "ndarray", 2, nonempty=True)
            box[n] = cx.eng.term(kw[n])
        d = cx.p("dataset", "ndarray", 2, nonempty=True)
        box["data"] = cx.eng.term(d)
        m = cx.call(G, **kw)
        box["m"] = m
        cx.meth(m, "fit", d)
        return m
    r = cx.run(f"GaussianMCM({given}, one_pure_child={opc}).fit", fn)
    if r is None or r.st is None:
        cx.und("fit-completes", f"given {given}", None, "no normal exit seen")
        return
    m = box["m"]
    biadj, udg = r.fterm(m, "biadj"), r.fterm(m, "udg")
    lb = loc_of(r, "biadj")
    lu = loc_of(r, "udg")
    tag = f"given {given}" + ("" if opc else ", one_pure_child=False")
    if biadj is None:
        cx.und("graph-attribute", tag, None, "model has no biadj attribute")
        return
    if given in ("biadj", "both"):
        b = box["biadj"]
        cx.put(same_graph(biadj, b), "supplied-latent-graph-kept", tag, lb, f"after fit the model's biadj is {T.show(biadj, 4)}")
    elif given == "udg":
        u = box["udg"]
        cx.put(None if udg is None else same_graph(udg, u), "supplied-dependence-graph-kept", tag, lu, f"after fit udg is {T.show(udg, 4) if udg else None}")
        if contains(biadj, box["data"]):
            cx.bad("structure-from-supplied-graph", tag, lb, "the latent graph depends on the dataset although a dependence graph was given")
        elif contains(biadj, u):
            cx.ok("structure-from-supplied-graph", tag, lb)
        else:
            cx.put(None if opaque_in(biadj) else False, "structure-from-supplied-graph", tag, lb, "the latent graph does not depend on the supplied dependence graph")
    else:
        for n, t, l in (("biadj", biadj, lb), ("udg", udg, lu)):
            if t is None:
                continue
            dep = contains(t, box["data"])
            cx.put(True if dep else (None if opaque_in(t) else False), "learned-from-dataset", f"{tag}: {n}", l,
                   f"{n} does not depend on the dataset: {T.show(t, 4)}")
        for e in r.ev("setattr"):
            if e.d["name"] == "biadj" and e.d["cls"] == G and contains(e.d["value"], box["data"]):
                if udg is not None and not via(biadj, udg):
                    cx.und("structure-from-learned-graph", tag, e.loc, "latent graph not derived from the reported dependence graph")
                else:
                    cx.ok("structure-from-learned-graph", tag, e.loc)
                break
    w = r.fterm(m, "parameters", "biadj_weights")
    if w is not None:
        cx.put(mask_is(w, biadj), "loadings-refer-to-reported-graph", tag, None, f"support of the loadings: {T.show(w, 3)}")


def via(t, mid):
    return contains(t, mid) or not contains(mid, lambda x: x.op == "param")


def same_graph(t, ref):
    alts = [unwrap(x) for _, x in phi_leaves(t)]
    if all(a is unwrap(ref) for a in alts):
        return True
    if any(a.op == "opaque" or a.op.startswith("call:") for a in alts):
        return None
    return False


def mask_is(w, graph):
    """support mask of the stored loadings"""
    t = w
    while t.op == "store":
        idx = unwrap(t.args[1])
        if idx is unwrap(graph):
            return True
        if idx.op in ("nonzero", "argwhere", "where") and len(idx.args) == 1:
            return unwrap(idx.args[0]) is unwrap(graph)
        t = t.args[0]
    if w.op == "where" and len(w.args) == 3:
        return unwrap(w.args[0]) is unwrap(graph)
    if w.op == "mul" and any(unwrap(a) is unwrap(graph) for a in w.args):
        return True
    return None


def loc_of(r, name):
    for e in reversed(r.ev("setattr")):
        if e.d["name"] == name:
            return e.loc
    return None
