from .base import *
from .tools import *

ID, TITLE = "C03", "fit returns the fitted estimator, which can then be sampled"
RULE = ("Return-value and typestate analysis. For every estimator class: each normal exit of fit (every method name) returns "
        "the receiver itself; the state fit leaves behind satisfies sample's preconditions, i.e. interpreting sample on that "
        "abstract state has a normal exit and no raise that is reached on every path; fit and sample are defined by every "
        "concrete estimator class.")
M = "medil.models."
WITNESSES = [
    ("medil/models.py", "        self.W_hat_lse, self.D_hat_lse = self.W_hat, self.D_hat\n", ""),
    ("medil/models.py", "            \"recon_valid\": error_recon[1],\n        }\n        return self", "            \"recon_valid\": error_recon[1],\n        }\n"),
]


def returns_self(cx, r, m, key):
    if r is None:
        return
    v = r.result
    if r.st is None:
        cx.bad("fit-returns", key, None, "no normal exit")
        return
    alts = []

    def go(x):
        if isinstance(x, PhiV):
            go(x.a), go(x.b)
        else:
            alts.append(x)
    go(v)
    wrong = [a for a in alts if not (isinstance(a, ObjV) and a.cid == m.cid)]
    if not wrong:
        cx.ok("fit-returns-self", key)
    elif any(isinstance(a, (ObjV, ConstV, TupV, ListV, DictV)) or (isinstance(a, Ref)) for a in wrong):
        cx.bad("fit-returns-self", key, last_return(r), f"a normal exit returns {wrong[0]!r} instead of the estimator")
    else:
        cx.und("fit-returns-self", key, None, repr(wrong[0]))


def last_return(r):
    e = r.ev("return")
    return e[-1].loc if e else None


def check(cx):
    if not cx.has(M + "MedilCausalModel"):
        return
    base = cx.lookup(M + "MedilCausalModel")
    classes = [v for v in (cx.lookup(M + n) for n in ("GaussianMCM", "DevMedil", "NeuroCausalFactorAnalysis"))
               if isinstance(v, ClsV)]
    for c in classes:
        for meth in ("fit", "sample"):
            f, owner = c.info.lookup(meth)
            key = f"{c.info.qual}.{meth}"
            if owner is base.info or f is None:
                cx.bad("interface-complete", key, (c.info.mod.path, c.info.node.lineno, c.info.qual),
                       f"{key} is not implemented (the base class raises NotImplementedError)")
            else:
                cx.ok("interface-complete", key)
    gauss(cx)
    for meth in ("mle", "lse", None):
        dev(cx, meth)
    for split in (False, True):
        ncfa(cx, split)


def gauss(cx):
    if not cx.has(M + "GaussianMCM"):
        return
    for given in ("biadj", "udg", "none"):
        box = {}

        def fit(_):
            kw = {} if given == "none" else {given: cx.p(given + "0", "ndarray", 2, nonempty=True)}
            m = box["m"] = cx.call(M + "GaussianMCM", **kw)
            return cx.meth(m, "fit", cx.p("dataset", "ndarray", 2, nonempty=True))
        r = cx.run(f"GaussianMCM({given}).fit", fit)
        returns_self(cx, r, box["m"], f"GaussianMCM({given})")

        def fs(_):
            f = fit(_)
            return cx.meth(f, "sample", cx.p("size", "int", lo=1))
        r = cx.run(f"GaussianMCM({given}).fit().sample", fs)
        sampled(cx, r, f"GaussianMCM({given})", box["m"])


def unset_when(r, m):
    """{condition: field}: conditions under which a normal exit of fit leaves a field of the estimator unset"""
    out = {}
    for name, v in r.st.heap[m.cid].fields.items():
        def go(x, pc):
            if isinstance(x, PhiV):
                go(x.a, pc + [x.cond]), go(x.b, pc + [T.lnot(x.cond)])
            elif isinstance(x, UnsetV) and pc:
                out.setdefault(pc[-1], name)
        go(v, [])
    return out


def sampled(cx, r, key, m=None):
    if r is None:
        return
    if r.st is None or r.result is None:
        ra = r.ev("raise")
        e = ra[-1] if ra else None
        cx.bad("sample-after-fit", key, e.loc if e else None, "sampling the fitted model cannot complete")
        return
    for e in r.ev("raise"):
        if e.loc[2].endswith(".sample") and not e.pc:
            cx.bad("sample-after-fit", key, e.loc, "sampling raises")
            return
    gaps = unset_when(r, m) if m is not None else {}
    for e in r.ev("raise"):
        if ".sample" in e.loc[2]:
            hit = [c for p in e.pc for c in ([p] + (list(p.args) if p.op in ("or", "and") else [])) if c in gaps]
            if hit:
                cx.bad("sample-after-fit", key, e.loc, f"fit sets {gaps[hit[0]]} only on some normal exits; on the others sampling raises although fit has returned")
                return
    t = r.term()
    alts = [x for _, x in phi_leaves(t)]
    if any(x.op == "const" for x in alts):
        cx.bad("sample-after-fit", key, last_return(r), f"sample returns {T.show(t, 2)}")
    else:
        cx.ok("sample-after-fit", key, None, T.show(t, 3))


def dev(cx, meth):
    if not cx.has(M + "DevMedil"):
        return
    box = {}
    kw = {} if meth is None else {"method": ConstV(meth)}

    def fit(_):
        m = box["m"] = cx.call(M + "DevMedil")
        return cx.meth(m, "fit", cx.p("dataset", "ndarray", 2, nonempty=True), **kw)
    r = cx.run(f"DevMedil.fit({meth})", fit)
    returns_self(cx, r, box["m"], f"DevMedil.fit({meth or 'default'})")

    def fs(_):
        return cx.meth(fit(_), "sample", cx.p("size", "int", lo=1), **kw)
    r = cx.run(f"DevMedil.fit({meth}).sample", fs)
    sampled(cx, r, f"DevMedil.fit({meth or 'default'})", box["m"])
    if meth:
        def direct(_):
            m = box["m"] = cx.call(M + "DevMedil")
            return cx.meth(m, "fit_penalized_" + meth, cx.p("dataset", "ndarray", 2, nonempty=True))
        returns_self(cx, cx.run(f"DevMedil.fit_penalized_{meth}", direct), box["m"], f"DevMedil.fit_penalized_{meth}")

        def val(_):
            m = direct(_)
            return cx.meth(m, "validation_" + meth, cx.p("lam", "float", lo=0), cx.p("mu_", "float", lo=0),
                           cx.p("held_out", "ndarray", 2, nonempty=True))
        sampled2(cx, cx.run(f"DevMedil.validation_{meth}", val), f"validation_{meth}")


def sampled2(cx, r, key):
    if r is not None:
        cx.put(r.st is not None and r.result is not None, "validation-after-fit", key, None, "validation cannot complete")


def ncfa(cx, split):
    if not cx.has(M + "NeuroCausalFactorAnalysis"):
        return
    box = {}

    def fit(_):
        m = box["m"] = cx.call(M + "NeuroCausalFactorAnalysis", path=cx.p("path", "str"))
        kw = {"split_idcs": TupV([cx.p("tr", "ndarray", 1), cx.p("va", "ndarray", 1)])} if split else {}
        return cx.meth(m, "fit", cx.p("dataset", "ndarray", 2, nonempty=True), **kw)
    returns_self(cx, cx.run(f"NCFA.fit(split={split})", fit), box["m"], f"NeuroCausalFactorAnalysis.fit(split={split})")
