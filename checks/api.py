"""Scenarios for every public operation of the package (used by the effect checks)."""
from .base import *

UDG = "medil.graph.UndirectedDependenceGraph"
RED = "medil.graph.ReducibleUndDepGraph"
NCFA = "medil.models.NeuroCausalFactorAnalysis"
GAUSS = "medil.models.GaussianMCM"
DEV = "medil.models.DevMedil"
BASE = "medil.models.MedilCausalModel"


class Api:
    """builds scenario closures; P(...) makes caller-owned arguments and remembers them"""

    def __init__(self, cx, defaults=False):
        """defaults: leave out every generator argument, so that the default applies"""
        self.cx, self.e, self.defaults = cx, cx.eng, defaults
        self.owned = {}

    def P(self, name, kind="ndarray", nd=None, **k):
        v = self.cx.p(name, kind, nd, **k)
        for c in self.e.origins(v):
            self.owned[c] = name
        return v

    def new(self, q, *a, **k):
        k = {n: v for n, v in k.items() if v is not None}
        return self.cx.call(q, *a, **k)

    def gauss(self, **k):
        return self.new(GAUSS, **k)

    def c(self, v):
        return ConstV(v)

    # ------------------------------------------------------------------ entries
    def entries(self, tier="quick"):
        cx, P, c = self.cx, self.P, self.c
        E = []

        def add(name, need, fn):
            E.append((name, need, fn))

        def rng():
            return None if self.defaults else P("rng", "generator")

        def graph(n="graph"):
            return P(n, "ndarray", 2)

        def data(n="dataset"):
            return P(n, "ndarray", 2)

        def par(m):
            """parameters supplied by the caller"""
            e = self.e
            p = e.getattr(m, "parameters")
            e.setattr(p, "error_means", P("error_means", "ndarray", 1))
            e.setattr(p, "error_variances", P("error_variances", "ndarray", 1))
            e.setattr(p, "biadj_weights", P("biadj_weights", "ndarray", 2))
            return m

        for g in ("biadj", "udg", "none"):
            def fit(_, g=g):
                kw = {"rng": rng()}
                if g != "none":
                    kw[g] = graph(g)
                m = self.gauss(**kw)
                m = cx.meth(m, "fit", data()) or m
                return m
            add(f"GaussianMCM({g}).fit", (GAUSS,), fit)

            def fits(_, g=g):
                kw = {"rng": rng()}
                if g != "none":
                    kw[g] = graph(g)
                m = self.gauss(**kw)
                cx.meth(m, "fit", data())
                return cx.meth(m, "sample", P("size", "int", lo=1))
            add(f"GaussianMCM({g}).fit;sample", (GAUSS,), fits)
        add("GaussianMCM.sample", (GAUSS,), lambda _: cx.meth(par(self.gauss(biadj=graph("biadj"), rng=rng())), "sample",
                                                               P("size", "int", lo=1)))
        for meth in ("mle", "lse"):
            def dev(_, meth=meth):
                m = self.new(DEV, rng=rng())
                cx.meth(m, "fit", data(), method=c(meth), lambda_reg=P("lam", "float", lo=0), mu_reg=P("muu", "float", lo=0))
                cx.meth(m, "validation_" + meth, P("lam", "float"), P("muu", "float"), data("held_out"))
                return cx.meth(m, "sample", P("size", "int", lo=1), method=c(meth))
            add(f"DevMedil.fit({meth});validation;sample", (DEV,), dev)

            def dev2(_, meth=meth):
                m = self.new(DEV, rng=rng(), one_pure_child=c(False), biadj=graph("biadj"), udg=graph("udg"))
                self.e.setattr(m, "init_W", P("init_W", "ndarray", 2))
                return cx.meth(m, "fit_penalized_" + meth, data())
            add(f"DevMedil(init_W).fit_penalized_{meth}", (DEV,), dev2)
        for mname in ("rho", "sigma"):
            add(f"DevMedil.{mname}", (DEV,), lambda _, q=mname: cx.meth(self.new(DEV), q, P("W", "ndarray", 2)))
        add("DevMedil.compute_sigma", (DEV,), lambda _: cx.meth(self.new(DEV), "compute_sigma", P("W", "ndarray", 2),
                                                               P("D", "ndarray", 2)))

        def ncfa(split):
            def f(_):
                m = self.new(NCFA, seed=P("seed", "int"), path=P("path", "str"), rng=rng(), biadj=graph("biadj"),
                             udg=graph("udg"))
                kw = {}
                if split:
                    kw["split_idcs"] = TupV([P("train_idx", "ndarray", 1), P("valid_idx", "ndarray", 1)])
                return cx.meth(m, "fit", data(), **kw)
            return f
        add("NCFA.fit", (NCFA,), ncfa(False))
        add("NCFA.fit(split)", (NCFA,), ncfa(True))
        add("NCFA.log", (NCFA,), lambda _: cx.meth(self.new(NCFA, path=P("path", "str")), "log", P("entry", "str")))
        add("NCFA._estimate_udg", (NCFA,), lambda _: self._ncfa_udg(data()))

        def vae(_):
            v = self.new("medil.vae.VariationalAutoencoder", P("nl", "int", lo=1), P("nm", "int", lo=1), P("nh", "int", lo=0),
                         P("w", "int", lo=1))
            return self.e.callv(v, [P("x", "tensor", 2)], {})
        add("VariationalAutoencoder.forward", ("medil.vae.VariationalAutoencoder",), vae)
        add("SparseLinear.forward", ("medil.vae.SparseLinear",), lambda _: self.e.callv(
            self.new("medil.vae.SparseLinear", P("fi", "int", lo=1), P("fo", "int", lo=1), P("mask", "tensor", 2)),
            [P("x", "tensor", 2)], {}))

        S = "medil.sample."
        add("sample.mcm()", (S + "mcm",), lambda _: self.new(S + "mcm", rng=rng(), num_meas=P("num_meas", "int", lo=2)))
        add("sample.mcm(biadj)", (S + "mcm",), lambda _: self.new(S + "mcm", rng=rng(), biadj=P("biadj", "ndarray", 2, nonempty=True)))
        add("sample.mcm(one_pure_child=False)", (S + "mcm",), lambda _: self.new(
            S + "mcm", rng=rng(), num_meas=P("num_meas", "int", lo=2), one_pure_child=c(False)))
        add("sample.biadj(1pc)", (S + "biadj",), lambda _: self.new(
            S + "biadj", P("num_meas", "int", lo=2), P("density", "float"), num_latent=P("num_latent", "int"), rng=rng()))
        add("sample.biadj(1pc, density=None)", (S + "biadj",), lambda _: self.new(
            S + "biadj", P("num_meas", "int", lo=2), c(None), rng=rng()))
        add("sample.biadj(not 1pc)", (S + "biadj",), lambda _: self.new(
            S + "biadj", P("num_meas", "int", lo=2), P("density", "float"), one_pure_child=c(False), rng=rng()))

        I = "medil.independence_testing."
        add("dcov", (I + "dcov",), lambda _: self.new(I + "dcov", data("samples")))
        for m in ("dcov_fast", "dcov_big", "xicor"):
            add(f"estimate_UDG({m})", (I + "estimate_UDG",), lambda _, m=m: self.new(
                I + "estimate_UDG", data("sample"), method=c(m), significance_level=P("alpha", "float", lo=0, hi=1)))
        add("estimate_UDG(p-values)", (I + "estimate_UDG",), lambda _: self.new(
            I + "estimate_UDG", data("sample"), method=P("pvalues", "ndarray", 2),
            significance_level=P("alpha", "float", lo=0, hi=1)))
        add("xicorr", (I + "xicorr",), lambda _: self.new(I + "xicorr", P("x", "ndarray", 1), P("y", "ndarray", 1),
                                                           P("ties", "bool")))
        for t in ("dcor_test", "xicor_test"):
            add(t, (I + t,), lambda _, t=t: self.new(I + t, P("x_y", "ndarray", 2)))

        V = "medil.evaluate."
        add("sfd", (V + "sfd",), lambda _: self.new(V + "sfd", graph("predicted_biadj"), graph("true_biadj")))
        add("recover_ug", (V + "recover_ug",), lambda _: self.new(V + "recover_ug", graph("biadj_mat")))
        for q in ("min_perm_squared_l2_dist", "min_perm_squared_l2_dist_abs"):
            add(q, (V + q,), lambda _, q=q: self.new(V + q, P("predicted_W", "ndarray", 2), P("true_W", "ndarray", 2)))

        C = "medil.ecc_algorithms."
        add("find_clique_min_cover", (C + "find_clique_min_cover",), lambda _: self.new(C + "find_clique_min_cover", graph()))
        add("find_heuristic_1pc", (C + "find_heuristic_1pc",), lambda _: self.new(C + "find_heuristic_1pc", graph()))
        add("add_isolated_verts", (C + "add_isolated_verts",), lambda _: self.new(C + "add_isolated_verts", graph("cover")))

        def mc(_):
            it = self.new(C + "max_cliques", graph("nbrhood"))
            return self.e.callv(LibV("builtins.list"), [it], {})
        add("max_cliques", (C + "max_cliques",), mc)

        def udg_hist(_):
            g = self.new(UDG, graph("adj_matrix"))
            cx.meth(g, "add_edges", P("edges", "ndarray", 2))
            cx.meth(g, "make_aux")
            cx.meth(g, "rm_edges", P("edges", "ndarray", 2))
            cx.meth(g, "convert_to_nde", P("name", "str"))
            return g
        add("UDG: edit, aux, export", (UDG,), udg_hist)

        def red(_):
            g = self.new(UDG, graph("adj_matrix"))
            cx.meth(g, "make_aux")
            r = cx.meth(g, "reducible_copy")
            cx.meth(r, "reduzieren", P("k", "int"))
            cx.meth(r, "choose_nbrhood")
            return r
        add("UDG: reduce", (UDG, RED), red)

        def red2(_):
            g = self.new(UDG, graph("adj_matrix"))
            cx.meth(g, "make_aux")
            r = cx.meth(g, "reducible_copy")
            self.e.setattr(r, "the_cover", P("the_cover", "ndarray", 2))
            self.e.setattr(r, "k_num_cliques", P("k", "int"))
            cx.meth(r, "cover_edges")
            cx.meth(r, "rule_1")
            cx.meth(r, "rule_2")
            cx.meth(r, "rule_3")
            return cx.meth(r, "reconstruct_cover", P("the_cover", "ndarray", 2))
        add("UDG: cover, rules, reconstruct", (UDG, RED), red2)

        def red3(_):
            g = self.new(UDG, graph("adj_matrix"))
            cx.meth(g, "make_aux")
            r = cx.meth(g, "reducible_copy")
            cx.meth(r, "rm_edges", P("edges", "ndarray", 2))
            cx.meth(r, "cover_edges", P("edges", "ndarray", 2))
            return r
        add("UDG: cover given edges", (UDG, RED), red3)

        def red4(_):
            g = self.new(UDG, graph("adj_matrix"))
            cx.meth(g, "make_aux")
            r = cx.meth(g, "reducible_copy")
            cx.meth(r, "cover_edges", P("edges", "ndarray", 2))
            cx.meth(r, "reset")
            return r
        add("UDG: reset", (UDG, RED), red4)

        Z = "medil.visualize."
        for q in ("show_obs_adj_mat", "show_dag", "get_dag_from_biadj"):
            add(q, (Z + q,), lambda _, q=q: self.new(Z + q, graph("mat")))
        add("show_obs_dcor_mat", (Z + "show_obs_dcor_mat",), lambda _: self.new(
            Z + "show_obs_dcor_mat", graph("mat"), thresh=P("thresh", "float"), print_val=c(True)))
        add("show_pairwise_plot", (Z + "show_pairwise_plot",), lambda _: self.new(Z + "show_pairwise_plot", data("sample")))

        X = "medil.examples.ExampleUDGAndMCM"

        def ex(_):
            o = self.new(X, P("description", "str"))
            cx.meth(o, "add_udg", graph("udg"))
            cx.meth(o, "add_mcm", graph("mcm"))
            return o
        add("ExampleUDGAndMCM", (X,), ex)
        return E

    def _ncfa_udg(self, d):
        m = self.new(NCFA, path=self.P("path", "str"))
        self.e.setattr(m, "dataset", d)
        self.cx.meth(m, "_estimate_udg")
        return m

    def runs(self, only=None):
        for name, need, fn in self.entries(self.cx.tier):
            if only and not only(name):
                continue
            if not all(self.cx.has(q) for q in need):
                continue
            self.owned = {}
            r = self.cx.run(name, fn)
            if r is not None:
                yield name, r, dict(self.owned)
