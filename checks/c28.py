from .base import *
from .tools import *
from sa.values import *
from sa.blocks import Blocks, Sum, P
from sa.normal import num

ID, TITLE = "C28", "Generated one-pure-child graphs satisfy their definition"
RULE = ("Block-painting analysis of the generated matrix with symbolic numbers of latents and measurements: stores to symbolic row/column ranges are layers, random permutations of "
        "whole rows or columns preserve the facts, independent permutation within columns preserves column coverage only. The result must have the requested shape, contain a "
        "full identity block that nothing later touches (a pure child for every latent), and every column range must keep a guaranteed one (a parent for every measurement).")
ASSUMES = ["1 <= num_latent <= num_meas"]
TECHNIQUE = "abstract interpretation to expression terms + symbolic block-painting domain (coverage and pure-child facts)"
F = "medil.sample.biadj"
_S = "medil/sample.py"
WITNESSES = [
    (_S, "        biadj[0, num_latent:] = True\n", ""),
    (_S, "        biadj[:, :num_latent] = np.eye(num_latent)\n", "        biadj[:, :num_latent] = rng.random((num_latent, num_latent)) < 0.5\n"),
    (_S, "biadj = rng.permutation(biadj, axis=1)", "biadj = rng.permuted(biadj, axis=1)"),
    (_S, "biadj[:, num_latent:] = rng.permuted(nonpure_children, axis=0)", "biadj[:, num_latent:] = rng.permuted(nonpure_children, axis=1)"),
    (_S, "biadj = rng.permutation(biadj, axis=1)", "biadj = rng.permuted(biadj, axis=0)"),
    (_S, "        biadj[1:][:, num_latent:] = edges\n", "        edges = np.vstack([edges, edges[:1]])[:num_latent]\n        biadj[:, num_latent:] = edges\n"),
    (_S, "        if density is None:", "        num_latent = min(num_latent, num_meas // 2)\n        if density is None:"),
    (_S, "        biadj[:, :num_latent] = np.eye(num_latent)\n", "        biadj[:, :num_latent] = np.tri(num_latent)\n"),
    (_S, "np.zeros((num_latent, num_meas), bool)", "np.zeros((num_meas, num_latent), bool)"),
    (_S, "rng.integers(1, num_meas)", "rng.integers(0, num_meas)"),
    (_S, "biadj[:, :num_latent] = np.eye(num_latent)", "biadj[:, : num_latent - 1] = np.eye(num_latent)[:, :-1]"),
    (_S, "        biadj[0, num_latent:] = True\n", "        biadj[0, num_latent + 1 :] = True\n"),
    (_S, "        nonpure_children = biadj[:, num_latent:]\n        biadj[:, num_latent:] = rng", "        nonpure_children = biadj[:, 1:]\n        biadj[:, 1:] = rng"),
]


def check(cx):
    if not cx.has(F):
        return
    for given in (True, False):
        box = {}

        def go(_):
            m = cx.p("num_meas", "int", lo=1)
            d = cx.p("density", "float", lo=0, hi=1)
            kw = {}
            if given:
                kw["num_latent"] = cx.p("num_latent", "int", lo=1)
                box["K"] = cx.eng.term(kw["num_latent"])
            box["M"] = cx.eng.term(m)
            return cx.call(F, m, d, one_pure_child=ConstV(True), rng=cx.p("rng", "rng"), **kw)
        key = "num_latent given" if given else "num_latent drawn"
        r = cx.run(f"biadj ({key})", go)
        if r is None or r.st is None:
            cx.und("requested-shape", key, None, "no result")
            continue
        one(cx, key, r, box, given)


def one(cx, key, r, box, given):
    t = r.term()
    loc = next((l for l in t.locs if l), None)
    M = box["M"]
    if given:
        K = box["K"]
    else:
        K = drawn(cx, key, r, t, M, loc)
        if K is None:
            return
    dark = opaque_in(t)
    b = Blocks(cx.eng, K, M, ("many", "more"))
    m = b.mat(t)
    if m is None:
        # a matrix whose number of rows is cut below (or raised above) what was asked for
        cut = [x for x in T.subterms(t, True) if given and x.op == "full" and x.args[0].op == "tuple" and len(x.args[0].args) == 2
               and x.args[0].args[1] is M and x.args[0].args[0].op in ("minimum", "maximum") and K in x.args[0].args[0].args and M not in x.args[0].args[0].args]
        if cut:
            cx.bad("requested-shape", key, loc, f"the matrix has {T.show(cut[0].args[0].args[0], 3)} rows, not one per requested latent")
            return
        cx.und("pure-child-per-latent", key, loc, "the way the matrix is filled is not understood")
        return
    good = m.rows == b.k and m.cols == b.m
    cx.put(True if good else None if dark else False, "requested-shape", key, loc, "one row per latent, one column per measurement" if good else f"the matrix has shape ({m.rows}, {m.cols})")
    if not good:
        return
    for case in [(x, y) for x in ("one", "many") for y in ("equal", "more") if given or y == "more"]:
        b = Blocks(cx.eng, K, M, case)
        m = b.mat(t)
        s = b.facts(m) if m is not None else None
        k = f"{key}: {'one latent' if case[0] == 'one' else 'several latents'}, {'as many' if case[1] == 'equal' else 'more'} measurements"
        if s is None:
            cx.und("pure-child-per-latent", k, loc, "regions cannot be ordered")
            continue
        cx.put(s.pure if not (dark and s.pure is False) else None, "pure-child-per-latent", k, loc,
               "a full identity block survives every later change" if s.pure else "no block guarantees every latent a child of its own")
        cx.put(s.cov if not (dark and s.cov is False) else None, "parent-per-measurement", k, loc,
               "every column keeps a guaranteed parent" if s.cov else "some column has no guaranteed parent")


def drawn(cx, key, r, t, M, loc):
    """the drawn number of latents, after checking its range"""
    ds = [x for x in T.subterms(t, True) if x.op == "draw" and isinstance(x.data, tuple) and x.data[0] in ("integers", "randint")]
    while t.op != "full" and t.args:
        t = t.args[1] if t.op == "draw" and len(t.args) > 1 else t.args[0]
    K = t.args[0].args[0] if t.op == "full" and t.args[0].op == "tuple" and len(t.args[0].args) == 2 else None
    if K is not None and K is M and len(t.args[0].args) == 2:
        K = t.args[0].args[1]
    if K not in ds and len(ds) == 1:
        K = ds[0]
    if K is None or K not in ds:
        cx.put(None, "requested-shape", key, loc, "number of latents not identified")
        return None
    b = Blocks(cx.eng, K, M)
    a = K.args[1:]
    kw = dict(K.kw)
    lo, hi = (a[0], a[1]) if len(a) > 1 else (T.const(0), a[0]) if len(a) == 1 and "high" not in kw else (a[0] if a else kw.get("low", T.const(0)), kw.get("high"))
    l = num(lo)
    cx.put(None if l is None else l >= 1, "requested-shape", f"{key}: at least one latent", loc, "at least one latent is drawn" if l is not None and l >= 1 else "the number of latents can be drawn as 0, leaving measurements without parent")
    top = b.poly(M) + P(1) - b.poly(hi) if hi is not None else None
    v = b.nonneg(top) if top is not None else None
    if "endpoint" in kw and not is_c(kw["endpoint"], False):
        v = b.nonneg(b.poly(M) - b.poly(hi))
    cx.put(v, "requested-shape", f"{key}: at most one per measurement", loc, "no more latents than measurements" if v else "more latents than measurements can be drawn")
    return K
