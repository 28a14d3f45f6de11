from .base import *
from .tools import *
from sa.ranges import Ranges
from sa.polarity import Polarity

ID, TITLE = "C06", "Dependence decisions are monotone in evidence and significance"
RULE = ("Polarity (monotonicity) analysis of every dependence decision: the direction in which each graph entry depends on the p-value or test "
        "statistic, on the significance level and (Gaussian model) on the absolute correlation is propagated through the value-flow term with the "
        "signs of multipliers and divisors from interval evaluation. Obligations: antitone in p-values, isotone in statistics, in the significance "
        "level and in |correlation|; the xi p-value is antitone in xi.")
ASSUMES = ["distribution functions are non-decreasing", "sample distances are non-negative"]
WITNESSES = [
    ("medil/independence_testing.py", "udg = p_vals < significance_level\n    elif", "udg = p_vals > significance_level\n    elif"),
    ("medil/independence_testing.py", "ppf(1 - significance_level)", "ppf(significance_level)"),
    ("medil/independence_testing.py", "test_val >= crit_val", "test_val <= crit_val"),
    ("medil/independence_testing.py", "xi = 1.0 - A1 / cu", "xi = A1 / cu"),
    ("medil/independence_testing.py", "pvalue = 1.0 - norm.cdf(np.sqrt(n) * xi / np.sqrt(v))", "pvalue = norm.cdf(np.sqrt(n) * xi / np.sqrt(v))"),
    ("medil/models.py", "1 - corr**2", "1 - corr**3"),
    ("medil/models.py", "np.log(inner_numerator) < (-np", "np.log(inner_numerator) > (-np"),
]


def judge(cx, t, var, want, key, rule, even=(), zero_ok=False):
    p = Polarity(cx.eng, Ranges(cx.eng), var, even)(t)
    loc = (t.locs or [None])[0]
    names = {"+": "grows", "-": "shrinks", "0": "does not react", "!": "may go either way", "?": "unknown"}
    if p == want:
        cx.ok(rule, key, loc, f"polarity {p}")
    elif p == "?":
        cx.und(rule, key, loc, "polarity not inferable")
    elif p == "0" and zero_ok:
        cx.ok(rule, key, loc, "independent")
    else:
        cx.bad(rule, key, loc, f"result {names[p]}, expected: {names[want]}: {T.show(t, 6)}")


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


def xi_sums(t):
    """the summed absolute rank increments of the xi coefficient"""
    return find(t, lambda x: x.op in ("sum", "mean") and x.args and x.args[0].op == "abs" and contains(x, lambda y: y.op == "rankdata"))


def check(cx):
    M = "medil.independence_testing."
    Q = M + "estimate_UDG"
    if cx.has(Q):
        for meth in ("dcov_fast", "dcov_big", "xicor", None):
            box = {}

            def est(_):
                d = cx.p("sample", "ndarray", 2, nonempty=True)
                a = cx.p("alpha", "float", lo=0, hi=1)
                pm = cx.p("pvals", "ndarray", 2, nonempty=True, lo=0, hi=1)
                box.update(d=cx.eng.term(d), a=cx.eng.term(a), p=cx.eng.term(pm))
                return cx.call(Q, d, method=pm if meth is None else ConstV(meth), significance_level=a)
            name = meth or "p-value matrix"
            r = cx.run(f"estimate_UDG({name})", est)
            if r is None or r.result is None:
                cx.und("isotone-in-significance", name, None, "no result")
                continue
            t = r.term()
            parts = list(t.args) if t.op == "tuple" else [t]
            g = parts[0]
            pv = parts[1] if len(parts) > 1 and parts[1].op != "const" else None
            judge(cx, g, [box["a"]], "+", f"estimate_UDG({name}) graph", "isotone-in-significance")
            if meth is None:
                judge(cx, g, [box["p"]], "-", f"estimate_UDG({name}) graph", "antitone-in-p-value")
            elif meth == "dcov_fast":
                cov = find(g, lambda x: x.op == "matmul" and len(x.args) == 2 and T.transpose(x.args[0]) is x.args[1]) or \
                    find(g, lambda x: x.op == "cov")
                if cov:
                    judge(cx, g, cov, "+", f"estimate_UDG({name}) graph", "isotone-in-statistic")
                else:
                    cx.und("isotone-in-statistic", f"estimate_UDG({name})", None, "distance covariance term not recognised")
            elif meth == "dcov_big":
                p = find(g, lambda x: x.op == "pvalue")
                if p:
                    judge(cx, g, p, "-", f"estimate_UDG({name}) graph", "antitone-in-p-value")
                    if pv is not None:
                        judge(cx, pv, p, "+", f"estimate_UDG({name}) p-values", "reported-p-value-is-the-test's")
                else:
                    st = find(g, lambda x: x.op == "dctest")
                    cx.put(False if st else None, "antitone-in-p-value", f"estimate_UDG({name})", (g.locs or [None])[0],
                           "the decision does not use the p-value of the distance correlation test")
            else:
                s = xi_sums(g)
                if s:
                    judge(cx, g, s, "-", f"estimate_UDG({name}) graph", "isotone-in-statistic")
                    if pv is not None:
                        judge(cx, pv, s, "+", f"estimate_UDG({name}) p-values", "p-value-antitone-in-statistic")
                else:
                    cx.und("isotone-in-statistic", f"estimate_UDG({name})", None, "xi increment sum not recognised")
    X = M + "xicorr"
    if cx.has(X):
        for ties in (True, False):
            def xi(_):
                return cx.call(X, cx.p("x", "ndarray", 1, nonempty=True), cx.p("y", "ndarray", 1, nonempty=True), ties=ConstV(ties))
            r = cx.run(f"xicorr(ties={ties})", xi)
            if r is None or r.result is None:
                continue
            c, p = (r.fterm(r.result, n) for n in ("correlation", "pvalue"))
            if c is None or p is None:
                t = r.term()
                c, p = (t.args[0], t.args[1]) if t.op == "tuple" and len(t.args) == 2 else (None, None)
            if c is None:
                cx.und("p-value-antitone-in-statistic", f"xicorr(ties={ties})", None, "result fields not found")
                continue
            s = xi_sums(c)
            if not s:
                cx.und("p-value-antitone-in-statistic", f"xicorr(ties={ties})", None, "xi increment sum not recognised")
                continue
            judge(cx, c, s, "-", f"xicorr(ties={ties}) correlation", "statistic-antitone-in-rank-increments")
            judge(cx, p, s, "+", f"xicorr(ties={ties}) pvalue", "p-value-antitone-in-statistic")
    G = "medil.models.GaussianMCM"
    if cx.has(G):
        box = {}

        def fit(_):
            d = cx.p("dataset", "ndarray", 2, nonempty=True)
            m = box["m"] = cx.call(G)
            cx.meth(m, "fit", d)
            return m
        r = cx.run("GaussianMCM().fit", fit)
        udg = r.fterm(box["m"], "udg") if r is not None and r.st is not None and box else None
        corr = find(udg, lambda x: x.op == "corr") if udg is not None else []
        if corr:
            judge(cx, udg, [], "+", "GaussianMCM.udg", "isotone-in-absolute-correlation", even=corr)
        else:
            cx.und("isotone-in-absolute-correlation", "GaussianMCM.udg", None, "no correlation term")
