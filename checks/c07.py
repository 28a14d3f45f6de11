from .base import *
from .tools import *

ID, TITLE = "C07", "Unknown or unsupported selectors are rejected explicitly"
RULE = ("Conditional constant propagation of each selector argument: every public function that selects behaviour by a name is interpreted with names it "
        "does not implement (including near misses) and with each name it documents. Obligations: with an unknown name no normal exit is "
        "reachable and the exception reached is ValueError or NotImplementedError; with a known name a normal exit is reachable and no use of a "
        "local name is reached before its definition.")
ASSUMES = []
WITNESSES = [
    ("medil/independence_testing.py", 'raise ValueError(f"Method \'{method}\' is invalid.")', "test = xicor_test"),
    ("medil/models.py", "            raise ValueError(f\"Parameterization '{parameterization}' is invalid.\")", "            pass"),
    ("medil/models.py", 'if method not in ["mle", "lse"]:', 'if method not in ["mle", "lse", ""]:'),
    ("medil/models.py", '        elif method == "lse":\n            return self.fit_penalized_lse', '        elif method:\n            return self.fit_penalized_lse'),
    ("medil/sample.py", "            raise ValueError(msg)", "            num_latent = 0"),
    ("medil/sample.py", "        raise (NotImplementedError)", "        mcm = None"),
]
OKEXC = ("ValueError", "NotImplementedError")


def conditions(r):
    out = []

    def go(n):
        if isinstance(n, (list, tuple)):
            for x in n:
                go(x)
            return
        c = getattr(n, "cond", None)
        if c is not None:
            out.append(c)
        for a in ("body", "a", "b", "kids", "then", "orelse", "children"):
            k = getattr(n, a, None)
            if k:
                go(k)
    try:
        go(r.tree)
    except Exception:
        pass
    for e in r.events:
        for c in e.pc:
            out.append(c[0] if isinstance(c, tuple) else c)
    return out


def reject(cx, key, name, fn):
    r = cx.run(f"{key} {name!r}", fn)
    if r is None:
        cx.und("unknown-rejected", f"{key} {name!r}", None, "not analysed")
        return
    sel = const(name) if not isinstance(name, tuple) else None
    ra = r.ev("raise")
    if r.st is None or r.result is None:
        bad = [e for e in ra if e.d.get("exc") not in OKEXC]
        miss = r.ev("unbound", "key-missing", "attr-missing", "undefined-name")
        if bad or (miss and not ra):
            e = (bad or miss)[-1]
            cx.bad("unknown-rejected", f"{key} {name!r}", e.loc, f"fails with {e.d.get('exc') or e.kind} instead of ValueError or NotImplementedError")
        elif not ra:
            cx.und("unknown-rejected", f"{key} {name!r}", None, "no explicit raise seen")
        else:
            cx.ok("unknown-rejected", f"{key} {name!r}", ra[-1].loc, f"only exit: {ra[-1].d.get('exc')}")
        return
    if sel is not None and any(isinstance(c, T.Term) and contains(c, sel) for c in conditions(r)):
        cx.und("unknown-rejected", f"{key} {name!r}", None, "a condition on the selector could not be evaluated")
        return
    ub = r.ev("unbound")
    ret = r.ev("return")
    e = (ub or ret or [None])[-1]
    cx.bad("unknown-rejected", f"{key} {name!r}", e.loc if e else None, f"a normal exit is reachable with the unimplemented name {name!r}")


def accept(cx, key, name, fn):
    r = cx.run(f"{key} {name!r} ok", fn)
    if r is None:
        return
    k = f"{key} {name!r}"
    ub = r.ev("unbound")
    if ub:
        cx.bad("known-name-complete", k, ub[0].loc, f"local name {ub[0].d['name']!r} is used without a definition")
    elif r.st is None or r.result is None:
        ra = r.ev("raise")
        e = ra[-1] if ra else None
        cx.bad("known-name-complete", k, e.loc if e else None, "no normal exit for an implemented name")
    else:
        cx.ok("known-name-complete", k)


def check(cx):
    M, Q = "medil.models.", "medil.independence_testing.estimate_UDG"
    UNK = ("zzz", "", "Mle", "l", "gaussian", "dcov")

    def data(n="sample"):
        return cx.p(n, "ndarray", 2, nonempty=True)
    if cx.has(Q):
        for n in ("zzz", "", "g-test", "dcov", "xi", "DCOV_FAST", "dcov_fas", "dcov_fastt", "dcov_bi", "dcov_bigg", "xico", "xicorr", "Xicor", " xicor"):
            reject(cx, "estimate_UDG method", n, lambda _: cx.call(Q, data(), method=ConstV(n)))
        for n in ("dcov_fast", "dcov_big", "xicor"):
            accept(cx, "estimate_UDG method", n, lambda _: cx.call(Q, data(), method=ConstV(n)))
    P = M + "Parameters"
    if cx.has(P):
        for n in ("zzz", "", "gaussian", "vae", "Gauss", "Gaussia", "Gaussian ", "VA", "VAEs"):
            reject(cx, "Parameters", n, lambda _: cx.call(P, ConstV(n)))
        for n in ("Gaussian", "VAE"):
            accept(cx, "Parameters", n, lambda _: cx.call(P, ConstV(n)))
    D = M + "DevMedil"
    if cx.has(D):
        for n in ("zzz", "", "l", "MLE", "ml", "e\", \"l", "mlee", "lses", "ls", "mse", "se", "Lse"):
            reject(cx, "DevMedil.fit method", n, lambda _: cx.meth(cx.call(D), "fit", data(), method=ConstV(n)))

            def fs(_):
                m = cx.call(D)
                cx.meth(m, "fit", data(), method=ConstV("mle"))
                cx.meth(m, "fit", data(), method=ConstV("lse"))
                return cx.meth(m, "sample", cx.p("size", "int", lo=1), method=ConstV(n))
            reject(cx, "DevMedil.sample method", n, fs)
        for n in ("mle", "lse"):
            accept(cx, "DevMedil.fit method", n, lambda _: cx.meth(cx.call(D), "fit", data(), method=ConstV(n)))
    S = "medil.sample.mcm"
    if cx.has(S):
        for b in (True, False):
            for n in ("zzz", "", "gaussian", "VAE", "Gauss", "Gaussians", "VA"):
                def mk_(_):
                    kw = {"biadj": cx.p("biadj", "ndarray", 2, nonempty=True)} if b else {"num_meas": cx.p("num_meas", "int", lo=2)}
                    return cx.call(S, parameterization=ConstV(n), **kw)
                reject(cx, f"sample.mcm parameterization ({'given' if b else 'random'} graph)", n, mk_)

        accept(cx, "sample.mcm parameterization", "Gaussian",
               lambda _: cx.call(S, parameterization=ConstV("Gaussian"), biadj=cx.p("biadj", "ndarray", 2, nonempty=True)))
    B = "medil.sample.biadj"
    if cx.has(B):
        def b(_):
            return cx.call(B, cx.p("num_meas", "int", lo=2), one_pure_child=ConstV(False), num_latent=cx.p("num_latent", "int", lo=1))
        reject(cx, "sample.biadj", ("one_pure_child=False", "num_latent>=1"), b)

        accept(cx, "sample.biadj", "one_pure_child=False, num_latent=0",
               lambda _: cx.call(B, cx.p("num_meas", "int", lo=2), one_pure_child=ConstV(False)))
