from .base import *
from .tools import *
from sa.moments import Moments, Rows, Wrong, ZERO, ID
from sa.normal import norm, items, num
from sa.shapes import Shapes

ID_, TITLE = "C15", "Sampling follows the model's own parameters"
ID = "C15"
RULE = ("Moment interpretation of the value-flow term of a sample: draws are abstracted to row-wise Gaussian moments (mean vector, covariance matrix, "
        "number of rows, set of underlying draws) and propagated through products, scalings and sums; the result is compared in algebraic normal form "
        "with W'W + diag(D) and the model's error mean, W and D being the fields the model holds at that moment; sums of operands that share a draw, "
        "draws shared by all rows and non-Gaussian draws are reported at their source line. Two samples in a row must not share a draw.")
ASSUMES = ["numpy Generator draws have their documented distributions and are independent of each other"]
WITNESSES = [
    ("medil/models.py", "        sample = latent_sample @ self.parameters.biadj_weights + error_sample\n", "        sample = latent_sample @ self.parameters.biadj_weights + error_sample\n        sample -= sample.mean(0) - self.parameters.error_means\n"),
    ("medil/models.py", "        return np.dot(L, W_hat) + epsilon", "        L = (L - L.mean(0)) / L.std(0)\n        return np.dot(L, W_hat) + epsilon"),
    ("medil/models.py", "sample = latent_sample @ self.parameters.biadj_weights + error_sample", "sample = latent_sample @ self.biadj + error_sample"),
    ("medil/models.py", "np.diagflat(self.parameters.error_variances),\n            sample_size,", "np.diagflat(self.parameters.error_variances**2),\n            sample_size,"),
    ("medil/models.py", "np.zeros(num_latent), np.eye(num_latent), sample_size", "np.zeros(num_latent), np.eye(num_latent) / num_latent, sample_size"),
    ("medil/models.py", "np.zeros(num_latent), np.eye(num_latent), sample_size", "np.zeros(num_latent), np.eye(num_latent)"),
    ("medil/models.py", "return np.dot(L, W_hat) + epsilon", "return np.dot(L, W_hat)"),
    ("medil/models.py", "epsilon = self.rng.multivariate_normal(np.zeros(n), D_hat, sample_size)", "epsilon = self.rng.standard_normal((sample_size, n)) * np.diag(D_hat)"),
    ("medil/models.py", "L = self.rng.standard_normal((sample_size, k))", "L = self.rng.random((sample_size, k))"),
    ("medil/models.py", "W_hat, D_hat = self.W_hat_mle, self.D_hat_mle", "W_hat, D_hat = self.W_hat, self.D_hat"),
]
G, D, MCM = "medil.models.GaussianMCM", "medil.models.DevMedil", "medil.sample.mcm"


def scenarios(cx):
    """(key, run, W, V, diag, mean, n)"""
    def prm(r, m, *n):
        return r.fterm(m, "parameters", *n)
    if cx.has(G):
        for how in ("fitted", "assigned", "fitted then assigned"):
            box = {}

            def go(_):
                m = box["m"] = cx.call(G, biadj=cx.p("biadj", "ndarray", 2, nonempty=True), rng=cx.p("rng", "generator"))
                if how.startswith("fitted"):
                    cx.meth(m, "fit", cx.p("dataset", "ndarray", 2, nonempty=True))
                if how.endswith("assigned"):
                    p = cx.eng.getattr(m, "parameters")
                    cx.eng.setattr(p, "biadj_weights", cx.p("weights", "ndarray", 2, nonempty=True))
                    cx.eng.setattr(p, "error_variances", cx.p("variances", "ndarray", 1, nonempty=True))
                    cx.eng.setattr(p, "error_means", cx.p("means", "ndarray", 1, nonempty=True))
                n = cx.p("sample_size", "int", lo=1)
                box["n"] = cx.eng.term(n)
                return cx.meth(m, "sample", n)
            r = cx.run(f"GaussianMCM.sample ({how})", go)
            if r is not None and r.st is not None:
                m = box["m"]
                yield f"GaussianMCM.sample ({how})", r, r.term(), prm(r, m, "biadj_weights"), prm(r, m, "error_variances"), False, prm(r, m, "error_means"), box["n"], r.fterm(m, "biadj")
    if cx.has(MCM):
        box = {}

        def go(_):
            m = box["m"] = cx.call(MCM, rng=cx.p("rng", "generator"), biadj=cx.p("biadj", "ndarray", 2, nonempty=True))
            n = cx.p("sample_size", "int", lo=1)
            box["n"] = cx.eng.term(n)
            return cx.meth(m, "sample", n)
        r = cx.run("sample.mcm().sample", go)
        if r is not None and r.st is not None:
            m = box["m"]
            yield "sample.mcm().sample", r, r.term(), prm(r, m, "biadj_weights"), prm(r, m, "error_variances"), False, prm(r, m, "error_means"), box["n"], r.fterm(m, "biadj")
    if cx.has(D):
        for order in (("mle",), ("lse",), ("mle", "lse"), ("lse", "mle")):
            for meth in order:
                if len(order) == 2 and meth == order[1]:
                    continue
                box = {}

                def go(_):
                    m = box["m"] = cx.call(D, rng=cx.p("rng", "generator"))
                    for o in order:
                        cx.meth(m, "fit", cx.p("dataset", "ndarray", 2, nonempty=True), method=ConstV(o))
                    n = cx.p("sample_size", "int", lo=1)
                    box["n"] = cx.eng.term(n)
                    return cx.meth(m, "sample", n, method=ConstV(meth))
                key = f"DevMedil fit {'+'.join(order)}, sample {meth}"
                r = cx.run(key, go)
                if r is not None and r.st is not None:
                    m = box["m"]
                    yield key, r, r.term(), r.fterm(m, "W_hat_" + meth), r.fterm(m, "D_hat_" + meth), True, ZERO, box["n"], None


WS, DS, MS = mk("WEIGHTS"), mk("VARS"), mk("MEANS")


def check(cx):
    for key, r, t, W, V, diag, mean, n, B in scenarios(cx):
        one(cx, key, r, t, W, V, diag, mean, n, B)
    again(cx)


def draws(ts):
    return [x for t in ts for x in T.subterms(t, stop=lambda x: x.op in ("dim", "size", "shape", "optx", "fit")) if x.op == "draw"]


def fields(cx, m):
    """terms of the parameters the model holds now"""
    out = []
    for path in (("biadj",), ("udg",), ("parameters", "biadj_weights"), ("parameters", "error_variances"), ("parameters", "error_means")):
        try:
            v = m
            for n in path:
                v = cx.eng.getattr(v, n)
            out.append(cx.eng.term(v))
        except Exception:
            continue
    return [t for t in out if t is not None]


def again(cx):
    """two samples in a row from the same model consist of different draws"""
    cases = []
    if cx.has(G):
        def g(_):
            m = cx.call(G, biadj=cx.p("biadj", "ndarray", 2, nonempty=True), rng=cx.p("rng", "generator"))
            cx.meth(m, "fit", cx.p("dataset", "ndarray", 2, nonempty=True))
            return m, {}
        cases.append(("GaussianMCM", g))
    if cx.has(MCM):
        cases.append(("sample.mcm()", lambda _: (cx.call(MCM, rng=cx.p("rng", "generator"), biadj=cx.p("biadj", "ndarray", 2, nonempty=True)), {})))
    for meth in ("mle", "lse") if cx.has(D) else ():
        def d(_, meth=meth):
            m = cx.call(D, rng=cx.p("rng", "generator"))
            cx.meth(m, "fit", cx.p("dataset", "ndarray", 2, nonempty=True), method=ConstV(meth))
            return m, {"method": ConstV(meth)}
        cases.append((f"DevMedil ({meth})", d))
    for name, make in cases:
        for same in (True, False):
            box = {}

            def go(_):
                m, kw = make(_)
                box["own"] = {d for d in draws(fields(cx, m))}
                n = cx.p("sample_size", "int", lo=1)
                box["a"] = cx.eng.term(cx.meth(m, "sample", n, **kw))
                return cx.meth(m, "sample", n if same else cx.p("second_size", "int", lo=1), **kw)
            key = f"{name} sampled twice" + ("" if same else ", other size")
            r = cx.run(key, go)
            if r is None or r.st is None or "a" not in box:
                continue
            a, b = ([x for x in draws([t]) if x not in box["own"]] for t in (box["a"], r.term()))
            both = [x for x in b if x in set(a)]
            if both:
                cx.bad("fresh-draws", key, (both[0].locs or [None])[0], "the second sample reuses a draw of the first")
            elif a and b:
                cx.ok("fresh-draws", key, (b[0].locs or [None])[0], f"{len(a)} and {len(b)} different draws")
            else:
                cx.und("fresh-draws", key, None, "draws not found")


def one(cx, key, r, t, W, V, diag, mean, n, B):
    if t is None or W is None or V is None or mean is None:
        cx.und("sample-moments", key, None, "sample or parameters not found")
        return
    lib = cx.eng.lib
    S0 = Shapes(cx.eng, masks=[B] if B is not None else ())
    k_m = S0.shape(W)
    raw = W.op == "param"
    if raw:
        # assigned parameters fit the graph they belong to
        k_m = S0.shape(B)
    if k_m is None:
        k_m = tuple(S0.poly(lib.dim(W, i)) for i in (0, 1))
    vec = V
    if diag and V.op == "diag":
        diag, vec = False, V.args[0]
    sub = {W: WS, vec: DS}
    if mean is not ZERO:
        sub[mean] = MS
    if mean is V or W is V:
        cx.und("sample-moments", key, None, "parameters not distinguishable")
        return
    t2 = T.subst(t, sub)
    lib.ndims[WS], lib.ndims[DS], lib.ndims[MS] = 2, 2 if diag else 1, 1
    S = Shapes(cx.eng, {WS: k_m, DS: (k_m[1], k_m[1]) if diag else (k_m[1],), MS: (k_m[1],)}, masks=[B] if B is not None else ())
    z = Moments(cx.eng, S)(t2)
    loc = (t.locs or [None])[0]
    if isinstance(z, Wrong):
        cx.bad("sample-moments", key, (z.term.locs or [loc])[0], z.why)
        return
    if z is None:
        own = [x for x in subterms(t2) if x.op in STATS and x.args and axis_of(x) in (0, None) and any(y.op == "draw" for y in subterms(x.args[0]))]
        if own and not opaque_in(t2):
            cx.bad("sample-moments", key, (own[0].locs or [loc])[0], f"every row depends on the {own[0].op} of all rows drawn, so rows are not independent draws of the model")
            return
        cx.und("sample-moments", key, loc, "moments not inferable: " + T.show(t2, 4))
        return
    one = S.prod(())
    if z.n == one and S.poly(n) != one:
        cx.bad("requested-rows", key, loc, "one row instead of the requested number" if len(S.shape(t2) or ()) == 1 else "one draw is shared by all rows")
    else:
        cx.put(True if z.n == S.poly(n) else (False if plain(z.n) else None), "requested-rows", key, loc, f"{z.n!r} rows for {S.poly(n)!r} requested")
    tid = mk("IDENTITY")
    cov = norm(z.cov)
    want = norm(mk("add", (mk("matmul", (mk("T", (WS,)), WS)), DS if diag else mk("diag", (DS,)))))
    verdict(cx, "sample-covariance", key, loc, cov, want, "W'W + diag(D)")
    wm = ZERO if mean is ZERO else MS
    verdict(cx, "sample-mean", key, loc, norm(z.mean), wm, "the error mean" if mean is not ZERO else "zero")


STATS = {"mean", "std", "var", "median", "cov", "corr", "max", "min"}


def axis_of(x):
    """axis of a reduction: a number, None for all, or "?" """
    if x.op in ("cov", "corr"):
        return 0
    for a in x.args[1:2]:
        return cval(a) if isnum(a) or is_c(a, None) else "?"
    return x.data if isinstance(x.data, int) or x.data is None else "?"


def plain(p):
    return all(a[0] in ("dim", "term", "count") for m in p for a in m)


OK = {"WEIGHTS", "RECIP", "VARS", "MEANS", "matmul", "T", "diag", "SUM", "SCALED", "PROD", "const", "IDENTITY", "param", "cov", "corr", "diagonal", "abs", "sqrt", "astype", "eye", "full", "dim",
      "store", "getitem", "optx", "slice", "tuple", "reshape", "ravel", "draw", "concat", "mean", "sum", "exp", "mul", "add", "pow", "inv", "fit", "where", "not", "invert", "bool"}


def verdict(cx, rule, key, loc, got, want, txt):
    if got is want or items(got) == items(want):
        cx.ok(rule, key, loc, txt)
        return
    strange = [x for x in subterms(got) if x.op not in OK]
    if strange:
        cx.und(rule, key, loc, f"{T.show(got, 4)}, expected {txt}; not understood: {sorted({x.op for x in strange})}")
    else:
        cx.bad(rule, key, loc, f"{T.show(got, 4)} instead of {txt}")
