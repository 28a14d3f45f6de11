from .base import *
from .tools import *
from sa.values import *
import sa.terms as T

ID, TITLE = "C41", "Queries leave the model unchanged"
RULE = ("Effect analysis by state comparison: for every model class the abstract object graph (attributes of the model, its parameters, its layers and weights, as terms over "
        "symbolic contents) is recorded before a query and compared after it. Obligation: every attribute that existed is the same value on every path; the generator is exempt. "
        "Queries: sample, validation_mle, validation_lse, compute_sigma, rho and sigma of the linear models; the forward pass and its losses for the neural "
        "model; choose_nbrhood, reconstruct_cover, reducible_copy and convert_to_nde for dependence graphs.")
ASSUMES = ["new attributes (caches) are not part of the model's state", "library layers change nothing in a forward pass except normalisation statistics"]
TECHNIQUE = "abstract interpretation to expression terms + state comparison (effect analysis) over the object graph"
_M, _G, _V = "medil/models.py", "medil/graph.py", "medil/vae.py"
G, D, N = "medil.models.GaussianMCM", "medil.models.DevMedil", "medil.models.NeuroCausalFactorAnalysis"
UDG, VAE = "medil.graph.UndirectedDependenceGraph", "medil.vae.VariationalAutoencoder"
WITNESSES = [
    (_M, "        sample = latent_sample @ self.parameters.biadj_weights + error_sample\n", "        self.parameters.error_means -= self.parameters.error_means.mean()\n        sample = latent_sample @ self.parameters.biadj_weights + error_sample\n"),
    (_M, "        num_latent = len(self.biadj)\n        latent_sample", "        self.biadj = self.biadj[self.biadj.any(1)]\n        num_latent = len(self.biadj)\n        latent_sample"),
    (_M, "        num_latent = len(self.biadj)\n        latent_sample", "        if sample_size > 1000:\n            self.parameters.biadj_weights = self.parameters.biadj_weights.astype(np.float32)\n        num_latent = len(self.biadj)\n        latent_sample"),
    (_M, "        W = self.W_hat_mle\n        D = self.D_hat_mle\n", "        W = self.W_hat_mle\n        D = self.D_hat_mle\n        np.fill_diagonal(D, np.maximum(np.diag(D), 1e-8))\n"),
    (_M, "        W = self.W_hat_lse\n        D = self.D_hat_lse\n", "        W, D = self.W_hat_lse, self.D_hat_lse\n        W -= W.mean()\n"),
    (_M, "        Sigma = np.dot(W.T, W) + D\n        return Sigma", "        D += np.dot(W.T, W)\n        return D"),
    (_M, "        return np.sum(np.abs(W))", "        return np.sum(np.abs(W, out=W))"),
    (_M, "        return np.dot(L, W_hat) + epsilon", "        W_hat *= (np.abs(W_hat) > 1e-3)\n        return np.dot(L, W_hat) + epsilon"),
    (_V, "        return nn.functional.linear(input, self.weight * self.mask, self.bias)", "        self.weight.data.mul_(self.mask)\n        return nn.functional.linear(input, self.weight, self.bias)"),
    (_V, "        return nn.functional.linear(input, self.weight * self.mask, self.bias)", "        if not self.training:\n            self.mask = (self.weight.abs() > 1e-3) * self.mask\n        return nn.functional.linear(input, self.weight * self.mask, self.bias)"),
    (_G, "        chosen_nbrhood = self.adj_matrix.copy()\n", "        chosen_nbrhood = self.adj_matrix\n"),
    (_G, "            prisoners = self.reduced_away[vert]\n", "            prisoners = self.reduced_away[vert]\n            self.reduced_away[vert] = False\n"),
    (_G, "        self.common_neighbors = udg.common_neighbors.copy()\n", "        self.common_neighbors = udg.common_neighbors.copy()\n        udg.verbose = False\n        udg.num_edges = 0\n"),
]


def snap(cx, v, path=(), seen=None, out=None):
    """{path: (term, cid)} of everything reachable from an object"""
    e = cx.eng
    seen = set() if seen is None else seen
    out = {} if out is None else out
    if isinstance(v, PhiV):
        out[path] = e.term(v)
        for x in (v.a, v.b):
            snap(cx, x, path + ("?",), seen, out)
        return out
    if isinstance(v, ObjV):
        if v.cid in seen:
            return out
        seen.add(v.cid)
        rec = e.st.heap.get(v.cid)
        if rec is None:
            return out
        for n, x in list(rec.fields.items()):
            if n == "rng" or isinstance(x, (FuncV, BoundV, ClsV, UnsetV)):
                continue
            snap(cx, x, path + (n,), seen, out)
        return out
    if isinstance(v, (ListV, DictV)):
        if v.cid in seen:
            return out
        seen.add(v.cid)
        r = e.st.heap.get(v.cid)
        items = enumerate(x for x, _ in r.items) if isinstance(r, LObj) else [(str(k), x) for k, x in r.entries.items()] + [(f"*{i}", x) for i, (_, x, _) in enumerate(r.extra)]
        for k, x in items:
            snap(cx, x, path + (k,), seen, out)
        if isinstance(r, LObj) and not any(isinstance(x, (ObjV, ListV, DictV)) for x, _ in r.items):
            out[path] = e.term(v)
        return out
    if isinstance(v, TupV):
        for k, x in enumerate(v.items):
            snap(cx, x, path + (k,), seen, out)
        return out
    t = e.term(v)
    if t.op in ("func", "lambda", "closure", "rng") or e.kindfacts.get(t) == "generator":
        return out
    out[path] = t
    return out


def scenarios(cx):
    data = lambda n="data": cx.p(n, "ndarray", 2, nonempty=True)
    if cx.has(G):
        def mcm(_):
            m = cx.call(G, biadj=cx.p("biadj", "ndarray", 2, nonempty=True), rng=cx.p("rng", "generator"))
            p = cx.eng.getattr(m, "parameters")
            for n, nd in (("biadj_weights", 2), ("error_variances", 1), ("error_means", 1)):
                cx.eng.setattr(p, n, cx.p(n, "ndarray", nd, nonempty=True))
            return m
        yield "GaussianMCM.sample", mcm, lambda m: cx.meth(m, "sample", cx.p("sample_size", "int", lo=1))

        def mcmfit(_):
            m = cx.call(G, rng=cx.p("rng", "generator"))
            cx.meth(m, "fit", data("dataset"))
            return m
        yield "GaussianMCM.fit, sample", mcmfit, lambda m: cx.meth(m, "sample", cx.p("sample_size", "int", lo=1))
    if cx.has(D):
        for k in ("mle", "lse"):
            def dev(_, k=k):
                m = cx.call(D, rng=cx.p("rng", "generator"))
                cx.meth(m, "fit", data("dataset"), method=ConstV(k))
                for n in ("W_hat", "D_hat"):
                    x = cx.p(n, "ndarray", 2, nonempty=True)
                    for a in (n, f"{n}_{k}"):
                        cx.eng.setattr(m, a, x)
                return m
            yield f"DevMedil.sample ({k})", dev, lambda m, k=k: cx.meth(m, "sample", cx.p("sample_size", "int", lo=1), method=ConstV(k))
            yield f"DevMedil.validation_{k}", dev, lambda m, k=k: cx.meth(m, f"validation_{k}", cx.p("lambda_reg", "float"), cx.p("mu_reg", "float"), data())
            if k == "mle":
                yield "DevMedil.compute_sigma", dev, lambda m: cx.meth(m, "compute_sigma", cx.eng.getattr(m, "W_hat"), cx.eng.getattr(m, "D_hat"))
                yield "DevMedil.rho", dev, lambda m: cx.meth(m, "rho", cx.eng.getattr(m, "W_hat"))
                yield "DevMedil.sigma", dev, lambda m: cx.meth(m, "sigma", cx.eng.getattr(m, "W_hat"))
    if cx.has(VAE):
        for mode in ("train", "eval"):
            def vae(_, mode=mode):
                v = cx.call(VAE, cx.p("nl", "int", lo=1), cx.p("nm", "int", lo=1), cx.p("nh", "int", lo=0), cx.p("w", "int", lo=1))
                cx.meth(v, mode)
                return v
            yield f"VariationalAutoencoder.forward ({mode})", vae, lambda m: cx.eng.callv(m, [cx.p("x", "tensor", 2)], {})
    if cx.has(UDG):
        def udg(_):
            g = cx.call(UDG, cx.p("adj_matrix", "ndarray", 2, nonempty=True))
            cx.meth(g, "make_aux")
            return g

        def red(_):
            g = cx.meth(udg(_), "reducible_copy")
            cx.eng.setattr(g, "reduced_away", cx.p("reduced_away", "ndarray", 2, nonempty=True))
            return g
        yield "UndirectedDependenceGraph.reducible_copy", udg, lambda m: cx.meth(m, "reducible_copy")
        yield "UndirectedDependenceGraph.convert_to_nde", udg, lambda m: cx.meth(m, "convert_to_nde", cx.p("name", "str"))
        yield "ReducibleUndDepGraph.choose_nbrhood", red, lambda m: cx.meth(m, "choose_nbrhood")
        yield "ReducibleUndDepGraph.reconstruct_cover", red, lambda m: cx.meth(m, "reconstruct_cover", cx.p("the_cover", "ndarray", 2, nonempty=True))


def check(cx):
    for key, make, query in scenarios(cx):
        box = {}

        def go(_):
            box.clear()
            m = box["m"] = make(_)
            box["before"] = snap(cx, m)
            r = query(m)
            box["after"] = snap(cx, m)
            return r
        r = cx.run(key, go)
        if r is None or "after" not in box:
            cx.und("state-kept", key, None, "no result")
            continue
        one(cx, key, r, box)


def one(cx, key, r, box):
    a, b = box["before"], box["after"]
    lost = 0
    for path, t in a.items():
        u = b.get(path)
        if u is t:
            continue
        name = ".".join(str(x) for x in path if x != "?")
        if u is None:
            if any(p[:len(path)] == path for p in b):
                lost += 1
                continue
            loc = where(r, box, path, None)
            cx.put(False if any(p[:len(path) - 1] == path[:-1] for p in b) else None, "state-kept", f"{key}: {name}", loc, "the attribute no longer holds a value of its own")
            continue
        v = judge(cx, t, u)
        if v is True:
            continue
        loc = where(r, box, path, u)
        cx.put(v, "state-kept", f"{key}: {name}", loc, f"the query changes {name}" if v is False else f"{name} may change")
    cx.put(True if a else None, "state-kept", key, None, f"{len(a)} values compared")


def judge(cx, t, u):
    """u is the value an attribute held as t before: True unchanged, False changed, None unknown"""
    if u is t:
        return True
    if u.op == "phi":
        vs = [judge(cx, t, x) for x in u.args[1:]]
        return False if False in vs else None if None in vs else True
    if u.op in ("copyof", "asarray", "ascontiguous") and u.args[0] is t:
        return True
    if u.op == "opaque" or any(x.op == "opaque" for x in subterms(u)) and not any(x.op == "opaque" for x in subterms(t)):
        return None
    return False


def where(r, box, path, u):
    loc = None
    for e in r.events:
        if e.kind == "setattr" and e.d.get("name") == path[-1]:
            loc = e.loc
        elif e.kind == "mutate" and u is not None and e.d.get("new") is u:
            return e.loc
    if u is not None and u.locs:
        return loc if loc and not u.locs else u.locs[0]
    return loc
