from .base import *
from .tools import *
from sa.shapes import Shapes, Poly, P, atom, ONE, TERMS

ID, TITLE = "C16", "Arrays have the documented orientation and size"
RULE = ("Symbolic shape inference: sizes are polynomials over the sizes of the inputs (n observations, m measurements, latents, width), array shapes are "
        "propagated through construction, slicing, masking, products, reductions, stacking, loops (inductively) and network layers. Obligation: the "
        "inferred shape of every result equals its documented shape; operands whose sizes cannot agree are reported where they meet.")
ASSUMES = ["numpy/torch shape rules; arguments have the documented shapes; graphs given to the exact search have ones on the diagonal"]
WITNESSES = [
    ("medil/models.py", "latent_sample @ self.parameters.biadj_weights + error_sample", "(latent_sample @ self.parameters.biadj_weights + error_sample).T"),
    ("medil/ecc_algorithms.py", "    return the_cover\n", "    return the_cover.T\n"),
    ("medil/models.py", "weight.detach().cpu().numpy().T", "weight.detach().cpu().numpy()"),
    ("medil/models.py", "self.parameters.error_means = self.dataset.mean(0)", "self.parameters.error_means = self.dataset.mean(1)"),
    ("medil/independence_testing.py", "p_vals = np.zeros((num_feats, num_feats), float)", "p_vals = np.zeros((samp_size, samp_size), float)"),
    ("medil/ecc_algorithms.py", "the_cover = np.zeros((num_latents, num_meas), bool)", "the_cover = np.zeros((num_latents, num_meas + 1), bool)"),
    ("medil/vae.py", "self.fc_mu = nn.Linear(in_features=self.inter_dim, out_features=self.latent_dim)", "self.fc_mu = nn.Linear(in_features=self.inter_dim, out_features=self.input_dim)"),
    ("medil/vae.py", "output_block = torch.ones(1, width_per_meas)", "output_block = torch.ones(width_per_meas, width_per_meas)"),
    ("medil/visualize.py", "dag_adj_mat = np.zeros((num_latent+num_obs, num_latent+num_obs))", "dag_adj_mat = np.zeros((num_latent+num_obs, num_latent*num_obs))"),
    ("medil/models.py", "error_sample\n        return sample", "error_sample\n        return sample.squeeze()"),
    ("medil/models.py", "error_sample\n        return sample", "error_sample\n        return np.squeeze(sample)"),
    ("medil/ecc_algorithms.py", "iso_vert_cover = np.zeros((num_rows, num_cols), bool)", "iso_vert_cover = np.zeros((num_rows, num_cols + 1), bool)"),
]


def nm(x):
    return atom("name", x)


n, m, L, k, w, b, v = (nm(x) for x in ("observations", "measurements", "latents", "requested", "width", "batch", "vertices"))
ANY = "any"


class Cols(Shapes):
    """number of columns of a matrix built up by a search (None before the first row), inductively"""

    def _poly(self, t):
        if t.op in ("sum", "count") and not t.kw and len(t.args) == 1 and t.args[0].op in ("diagonal", "diag") and len(t.args[0].args) == 1:
            t = mk("trace", t.args[0].args)
        if t.op == "trace":
            # an undirected dependence graph has ones on its diagonal here
            s = self.shape(t.args[0])
            if s is not None and len(s) == 2:
                return s[0]
        return super()._poly(t)

    def cols(self, t):
        """({possible column counts}, {leaves whose width is unknown})"""
        seen, todo, out, unk = set(), [t], {}, set()
        while todo:
            x = todo.pop()
            if x in seen or x.op in ("rec", "unset") or x is NONE_T:
                continue
            seen.add(x)
            if x.op == "phi":
                todo += x.args[1:]
            elif x.op == "mu":
                todo += [T.MU[x.data]["init"], T.MU[x.data]["next"]]
            elif x.op in ("astype", "store", "copy", "array", "asarray") and x.args[0].op not in ("list", "tuple"):
                todo.append(x.args[0])
            elif x.op == "vstack":
                ps = list(x.args)
                if len(ps) == 1 and ps[0].op in ("tuple", "list"):
                    ps = list(ps[0].args)
                for p in ps:
                    s = self.shape(p)
                    if s:
                        out.setdefault(s[-1], p)
                    else:
                        todo.append(p)
            else:
                s = self.shape(x)
                if s is not None and len(s) == 2:
                    out.setdefault(s[-1], x)
                elif x.op == "getitem" and x.args[1].op not in ("tuple", "slice"):
                    todo.append(x.args[0])      # rows of a matrix
                elif x.op == "reshape" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and is_c(x.args[1].args[0], 1) and is_c(x.args[1].args[1], -1):
                    todo.append(x.args[0])      # one row
                else:
                    unk.add(x)
        # a width read off a matrix of the search itself holds by induction
        for q in list(out):
            if len(q) == 1 and q.const is None:
                (mono, c), = q.items()
                if c == 1 and len(mono) == 1 and mono[0][0] == "dim" and mono[0][2] in (1, -1) and TERMS.get(mono[0][1]) in seen:
                    del out[q]
        return out, unk


NONE_T = T.NONE


def plain(p):
    return all(a[0] in ("name", "count") or a[0] == "dim" and TERMS[a[1]].op == "param" for mono in p for a in mono)


def verdict(cx, key, t, S, want, what):
    loc = (t.locs or [None])[0]
    rule = "documented-shape"
    S.conflicts.clear()
    s = S.shape(t)
    if s is None and t.op == "squeeze" and len(t.args) == 1 and not t.kw and not t.data:
        b = S.shape(t.args[0])
        if b is not None and len(b) == len(want) and all(plain(p) for p in b) and any(() not in p for p in b):
            cx.bad(rule, key, loc, f"the {what} loses its dimensions of size one ({', '.join(map(repr, b))})")
            return
    txt = "(" + ", ".join("*" if x is ANY else repr(x) for x in want) + ")"
    if s is None:
        real = [(c, ps) for c, ps in S.conflicts if all(isinstance(p, Poly) and plain(p) for p in ps)]
        if real and not any(x.op in ("opaque", "rec") for x in subterms(real[0][0])):
            c, ps = real[0]
            cx.bad(rule, key, (c.locs or [loc])[0], f"sizes {' and '.join(map(repr, ps))} meet in {T.show(c, 2)}")
        else:
            cx.und(rule, key, loc, f"shape of the {what} not inferable")
        return
    got = "(" + ", ".join(map(repr, s)) + ")"
    if len(s) == len(want) and all(x is ANY or x == y for x, y in zip(want, s)):
        cx.ok(rule, key, loc, got)
    elif len(s) != len(want) or any(x is not ANY and x != y and plain(y) for x, y in zip(want, s)):
        cx.bad(rule, key, loc, f"the {what} has shape {got}, documented {txt}")
    elif len(s) == 2 and s != s[::-1] and all(x is ANY or x == y for x, y in zip(want, s[::-1])):
        cx.bad(rule, key, loc, f"the {what} is transposed: {got}, documented {txt}")
    else:
        cx.und(rule, key, loc, f"shape {got} against {txt}")


def facts(cx, d, masks=()):
    return Shapes(cx.eng, {t: s for t, s in d.items() if isinstance(s, tuple)}, {t: s for t, s in d.items() if not isinstance(s, tuple)}, masks)


class Box(dict):
    """parameters of a scenario with their documented shapes"""

    def arr(self, cx, name, kind, *shape):
        p = cx.p(name, kind, len(shape), nonempty=True)
        self[cx.eng.term(p)] = tuple(shape)
        return p

    def num(self, cx, name, poly, lo=1):
        p = cx.p(name, "int", lo=lo)
        self[cx.eng.term(p)] = poly
        return p


def scen(cx, key, fn):
    """run; returns (run, Shapes over the documented input shapes)"""
    box = Box()
    r = cx.run(key, lambda _: fn(box))
    if r is None or r.st is None:
        cx.und("documented-shape", key, None, "no result")
        return None, None, box
    return r, facts(cx, box), box


def tup(t, i):
    return t.args[i] if t.op == "tuple" and i < len(t.args) else None


def check(cx):
    estimation(cx)
    gaussian(cx)
    penalised(cx)
    graphs(cx)
    network(cx)
    neural(cx)


def estimation(cx):
    Q = "medil.independence_testing.estimate_UDG"
    if cx.has(Q):
        for meth in ("dcov_fast", "dcov_big", "xicor"):
            r, S, _ = scen(cx, f"estimate_UDG({meth})", lambda B: cx.call(Q, B.arr(cx, "sample", "ndarray", n, m), method=ConstV(meth)))
            if r is None:
                continue
            t = r.term()
            for i, what in enumerate(("dependence graph", "p-value matrix")):
                x = tup(t, i)
                if x is not None and x.op != "const":
                    verdict(cx, f"estimate_UDG({meth}) {what}", x, S, (m, m), what)
    Q = "medil.independence_testing.dcov"
    if cx.has(Q):
        r, S, _ = scen(cx, "dcov", lambda B: cx.call(Q, B.arr(cx, "samples", "ndarray", n, m)))
        if r is not None and tup(r.term(), 0) is not None:
            verdict(cx, "dcov covariances", tup(r.term(), 0), S, (m, m), "distance covariance matrix")


def gaussian(cx):
    G = "medil.models.GaussianMCM"
    if not cx.has(G):
        return
    for given in ("biadj", "udg", "nothing"):
        mod = {}

        def go(B):
            kw = {} if given == "nothing" else {given: B.arr(cx, given, "ndarray", *((L, m) if given == "biadj" else (m, m)))}
            g = mod["m"] = cx.call(G, rng=cx.p("rng", "generator"), **kw)
            cx.meth(g, "fit", B.arr(cx, "dataset", "ndarray", n, m))
            return cx.meth(g, "sample", B.num(cx, "sample_size", k))
        key = f"GaussianMCM ({given} given)"
        r, S, _ = scen(cx, key, go)
        if r is None:
            continue
        g = mod["m"]
        if given == "nothing":
            x = r.fterm(g, "udg")
            if x is not None:
                verdict(cx, f"{key} udg", x, S, (m, m), "estimated dependence graph")
        bt = r.fterm(g, "biadj")
        lat = L
        if bt is not None:
            verdict(cx, f"{key} biadj", bt, S, (L if given == "biadj" else ANY, m), "latent graph")
            s = S.shape(bt)
            lat = s[0] if s else ANY
        for f, want in (("biadj_weights", (lat, m)), ("error_means", (m,)), ("error_variances", (m,))):
            x = r.fterm(g, "parameters", f)
            if x is None:
                cx.und("documented-shape", f"{key} {f}", None, "not found")
            else:
                verdict(cx, f"{key} {f}", x, S, want, f)
        verdict(cx, f"{key} sample", r.term(), S, (k, m), "sample")
    Q = "medil.sample.mcm"
    if cx.has(Q):
        mod = {}

        def go2(B):
            g = mod["m"] = cx.call(Q, rng=cx.p("rng", "generator"), biadj=B.arr(cx, "biadj", "ndarray", L, m))
            return cx.meth(g, "sample", B.num(cx, "sample_size", k))
        r, S, _ = scen(cx, "sample.mcm", go2)
        if r is not None:
            for f, want in (("biadj_weights", (L, m)), ("error_means", (m,)), ("error_variances", (m,))):
                x = r.fterm(mod["m"], "parameters", f)
                if x is not None:
                    verdict(cx, f"sample.mcm {f}", x, S, want, f)
            verdict(cx, "sample.mcm sample", r.term(), S, (k, m), "sample")


def penalised(cx):
    D = "medil.models.DevMedil"
    if not cx.has(D):
        return
    for meth in ("mle", "lse"):
        mod = {}

        def go(B):
            g = mod["m"] = cx.call(D, rng=cx.p("rng", "generator"))
            cx.meth(g, "fit", B.arr(cx, "dataset", "ndarray", n, m), method=ConstV(meth))
            return cx.meth(g, "sample", B.num(cx, "sample_size", k), method=ConstV(meth))
        key = f"DevMedil ({meth})"
        r, S, _ = scen(cx, key, go)
        if r is None:
            continue
        for f, want in (("W_hat", (ANY, m)), ("D_hat", (m, m))):
            x = r.fterm(mod["m"], f"{f}_{meth}") or r.fterm(mod["m"], f)
            if x is not None:
                verdict(cx, f"{key} {f}", x, S, want, f)
        verdict(cx, f"{key} sample", r.term(), S, (k, m), "sample")


def graphs(cx):
    Q = "medil.sample.biadj"
    if cx.has(Q):
        for pure in (True, False):
            def go(B):
                kw = {"num_latent": B.num(cx, "num_latent", L)} if pure else {"one_pure_child": ConstV(False)}
                return cx.call(Q, B.num(cx, "num_meas", m), rng=cx.p("rng", "generator"), **kw)
            key = f"sample.biadj (one_pure_child={pure})"
            r, S, box = scen(cx, key, go)
            if r is None:
                continue
            if pure:
                verdict(cx, key, r.term(), S, (L, m), "random latent graph")
            else:
                cover(cx, key, r.term(), box, m)
    Q = "medil.ecc_algorithms.find_heuristic_1pc"
    if cx.has(Q):
        r, S, _ = scen(cx, "find_heuristic_1pc", lambda B: cx.call(Q, B.arr(cx, "graph", "ndarray", v, v)))
        if r is not None:
            verdict(cx, "find_heuristic_1pc", r.term(), S, (ANY, v), "cover")
    Q = "medil.ecc_algorithms.find_clique_min_cover"
    if cx.has(Q):
        r, S, box = scen(cx, "find_clique_min_cover", lambda B: cx.call(Q, B.arr(cx, "graph", "ndarray", v, v)))
        if r is not None:
            cover(cx, "find_clique_min_cover", r.term(), box, v)
    Q = "medil.ecc_algorithms.add_isolated_verts"
    if cx.has(Q):
        r, S, _ = scen(cx, "add_isolated_verts", lambda B: cx.call(Q, B.arr(cx, "cover", "ndarray", L, v)))
        if r is not None:
            verdict(cx, "add_isolated_verts", r.term(), S, (ANY, v), "cover")
    Q = "medil.evaluate.recover_ug"
    if cx.has(Q):
        r, S, _ = scen(cx, "recover_ug", lambda B: cx.call(Q, B.arr(cx, "biadj_mat", "ndarray", L, m)))
        if r is not None:
            verdict(cx, "recover_ug", r.term(), S, (m, m), "dependence graph")
    Q = "medil.visualize.get_dag_from_biadj"
    if cx.has(Q):
        r, S, _ = scen(cx, "get_dag_from_biadj", lambda B: cx.call(Q, B.arr(cx, "biadj_mat", "ndarray", L, m)))
        if r is not None:
            verdict(cx, "get_dag_from_biadj", r.term(), S, (L + m, L + m), "DAG adjacency")


def cover(cx, key, t, box, want):
    C = Cols(cx.eng, {x: s for x, s in box.items() if isinstance(s, tuple)}, {x: s for x, s in box.items() if not isinstance(s, tuple)})
    c, unk = C.cols(t)
    loc = (t.locs or [None])[0]
    wrong = [(p, x) for p, x in c.items() if p != want and plain(p)]
    if wrong:
        cx.bad("documented-shape", key, (wrong[0][1].locs or [loc])[0], f"rows of {wrong[0][0]!r} columns in the cover, documented {want!r}")
    elif unk or not c or set(c) != {want}:
        cx.und("documented-shape", key, loc, "column count not inferable: " + (T.show(sorted(unk, key=lambda x: x.uid)[0], 3) if unk else str(c)))
    else:
        cx.ok("documented-shape", key, loc, f"(*, {want!r})")


def network(cx):
    Q = "medil.vae.VariationalAutoencoder"
    if not cx.has(Q):
        return

    def go(B):
        h = cx.p("num_hidden_layers", "int", lo=0)
        net = cx.call(Q, B.num(cx, "num_vae_latent", L), B.num(cx, "num_meas", m), h, B.num(cx, "width_per_meas", w))
        return cx.call(net, B.arr(cx, "x", "tensor", b, m))
    r, S, _ = scen(cx, "VariationalAutoencoder", go)
    if r is None:
        return
    t = r.term()
    for i, (what, want) in enumerate((("reconstruction", (b, m)), ("log-variance", (b, m)), ("latent mean", (b, L)), ("latent log-variance", (b, L)))):
        x = tup(t, i)
        if x is None:
            cx.und("documented-shape", f"VariationalAutoencoder {what}", None, "four results expected")
        else:
            verdict(cx, f"VariationalAutoencoder {what}", x, S, want, what)


def neural(cx):
    """the autoencoder is built for the number of measurements of the data"""
    N = "medil.models.NeuroCausalFactorAnalysis"
    if not cx.has(N):
        return
    mod = {}

    def go(B):
        g = mod["m"] = cx.call(N, path=cx.p("path", "str"))
        h = cx.eng.getattr(g, "hyperparams")
        if isinstance(h, DictV):
            cx.eng.setitem(h, ConstV("width_per_meas"), B.num(cx, "width_per_meas", w))
        cx.meth(g, "fit", B.arr(cx, "dataset", "ndarray", n, m))
        return g
    r, S, _ = scen(cx, "NCFA.fit", go)
    if r is None:
        return
    x = r.fterm(mod["m"], "parameters", "weights")
    if x is not None:
        verdict(cx, "NCFA.parameters.weights", x, S, (m, ANY), "loading matrix")
