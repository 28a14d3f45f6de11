from .base import *
from .tools import *
from . import neural, c22
from .c23 import hyper, is_nuc, is_l1
from sa.values import *
from sa.normal import norm, items, num, build, expand, factors, muln
from sa.scalarpol import Polarity

ID, TITLE = "C24", "Training minimises reconstruction loss, KL and loading penalties"
RULE = ("Polarity (monotonicity) analysis of the back-propagated term in algebraic normal form, with the forward pass's outputs, the batch and the hyperparameters as atoms: "
        "the squared difference of batch and reconstruction, the Gaussian KL term, the nuclear norm and the L1 norm of the reported loading matrix must each occur with "
        "non-negative effect; matrices between the difference vectors must be definite by construction. The validation loss must contain the first two in the same way and no "
        "norm of the loadings, and its KL and reconstruction terms are the training loss's.")
ASSUMES = ["the hyperparameters beta, lambda, mu are non-negative", "the optimiser minimises the back-propagated quantity unless told to maximise"]
TECHNIQUE = "abstract interpretation to expression terms + monotonicity (polarity) rules over algebraic normal forms"
N = neural.N
WITNESSES = [
    ("medil/models.py", "mu * weight.norm(1)\n        return -loss", "mu * weight.abs().sum(0).max()\n        return -loss"),
    ("medil/models.py", "mu * weight.norm(1)\n        return -loss", "mu * (weight**2).sum()\n        return -loss"),
    ("medil/models.py", "1 + logvar - mu.pow(2) - logvar.exp()", "1 + logvar - mu.abs() - logvar.exp()"),
    ("medil/models.py", "mu * weight.norm(1)\n        return -loss", "mu * torch.linalg.norm(weight, 1)\n        return -loss"),
    ("medil/models.py", "        loss = -beta * kl_div + recon_loss", "        loss = beta * kl_div + recon_loss"),
    ("medil/models.py", "            return -loss + llambda", "            return loss + llambda"),
    ("medil/models.py", "        return -loss\n", "        return loss\n"),
    ("medil/models.py", 'llambda * weight.norm("nuc") + mu * weight.norm(1)\n        return', 'llambda * weight.norm("nuc") - mu * weight.norm(1)\n        return'),
    ("medil/models.py", 'return -loss + llambda * weight.norm("nuc")', 'return -loss - llambda * weight.norm("nuc")'),
    ("medil/models.py", "mu.pow(2) - logvar.exp())", "mu.pow(2) + logvar.exp())"),
    ("medil/models.py", "        diff = x - x_recon\n        recon_loss", "        diff = x + x_recon\n        recon_loss"),
    ("medil/models.py", "            )\n        ).mul(-1 / 2)\n\n        # elbo", "            )\n        ).mul(1 / 2)\n\n        # elbo"),
    ("medil/models.py", "mu.pow(2) - logvar.exp())", "mu.pow(2) - logvar.mul(0.5).exp())"),
    ("medil/models.py", "                    None,\n                    self.hyperparams", "                    model.decoder.cov_linear_fulcon.weight,\n                    self.hyperparams"),
    ("medil/models.py", "weight_batch = model.decoder.cov_linear_fulcon.weight", "weight_batch = model.decoder.mean_linear_fulcon.weight"),
    ("medil/models.py", "                loss.backward()", "                (-loss).backward()"),
    ("medil/models.py", 'llambda * weight.norm("nuc") + mu * weight.norm(1)\n        return', 'llambda * weight.detach().norm("nuc") + mu * weight.norm(1)\n        return'),
    ("medil/models.py", "        loss = -beta * kl_div + recon_loss", "        loss = -beta * kl_div"),
    ("medil/models.py", "weight_decay=1e-5\n", "weight_decay=1e-5, maximize=True\n"),
]


class Mute:
    def __init__(self, cx):
        self.eng = cx.eng

    def put(self, *a, **k):
        pass
    ok = bad = und = put


def check(cx):
    for nf in neural.fits(cx, hyper=hyper):
        one(cx, nf)


def syms(t, names):
    return any(x.op == "sym" and x.data in names for x in T.subterms(t, True))


def orientation(t):
    """+1/-1 when t is a multiple of batch - recon (up to transposition and reshaping)"""
    while t.op in ("T", "ravel", "reshape", "copyof", "getitem", "elem") and t.args:
        t = t.args[0]
    d = {}
    for k, c in items(t).items():
        while k.op in ("T", "ravel", "reshape") and k.args:
            k = k.args[0]
        if k.op != "sym" or k.data not in ("batch", "recon") or k.data in d:
            return None
        d[k.data] = c
    if set(d) != {"batch", "recon"} or d["batch"] + d["recon"] != 0:
        return None
    return 1 if d["batch"] > 0 else -1


class Recon(Polarity):
    def __init__(self, nonneg):
        super().__init__(self.whole, lambda t: syms(t, ("recon",)), nonneg, lambda t: "lin" if orientation(t) else self.wrong(t))

    def whole(self, t):
        if t.op.endswith("mse_loss") and len(t.args) > 1 and {getattr(x, "data", None) for x in t.args[:2]} == {"batch", "recon"}:
            return "+"

    def wrong(self, t):
        """a combination of the batch and its reconstruction that is not their difference"""
        if t.op == "SUM":
            d = {k.data: c for k, c in items(t).items() if k.op == "sym" and k.data in ("batch", "recon")}
            if "recon" in d and (d.get("batch", 0) + d["recon"] != 0):
                return "odd"

    def orient(self, t):
        return orientation(t)


def nonneg(nf):
    return [s for n, s in nf.box["hp"].items() if n in ("beta", "lambda", "mu")] + [T.mk("sym", data="batch_rows"), T.mk("sym", data="batch_cols")]


def split_kl(t, sign):
    """{(outer factor signs, reduction): {monomial: coefficient}} of a normalised sum of KL pieces, or None"""
    out = {}

    def mono(x):
        if x.op == "sym" and x.data == "logvar":
            return "lv"
        if x.op == "expm1":
            k = items(norm(x.args[0]))
            if len(k) == 1 and next(iter(k)).op == "sym" and next(iter(k)).data == "logvar":
                return ("exp", next(iter(k.values())))
        if x.op == "PROD" and len(x.args) == 2 and all(y.op == "sym" and y.data == "mu" for y in x.args):
            return "mu2"
        if x.op == "PROD" and len(x.args) == 2 and all(y.op == "abs" and y.args[0].op == "sym" and y.args[0].data == "mu" for y in x.args):
            return "mu2"
        if x.op in ("abs", "relu") and x.args[0].op == "sym" and x.args[0].data in ("mu", "logvar"):
            return f"{x.op}({x.args[0].data})"
        ms = x.args if x.op == "PROD" else (x,)
        if all(y.op == "sym" and y.data in ("mu", "logvar") for y in ms):
            return "*".join(sorted(y.data for y in ms))
        es = x.args if x.op == "PROD" else (x,)
        if all(y.op == "exp" for y in es):
            tot = {}
            for y in es:
                for k, c in items(norm(y.args[0])).items():
                    tot[k] = tot.get(k, 0) + c
            if len(tot) == 1 and next(iter(tot)).op == "sym" and next(iter(tot)).data == "logvar":
                return ("exp", next(iter(tot.values())))
        return None

    def inner(x, c, key):
        if x.op == "sum" and x.args and key[-1:] == (("sum",),):
            return inner(x.args[0], c, key)         # all of it is summed anyway
        if x.op in ("sum", "mean") and not x.kw and x.args:
            return inner(x.args[0], c, key + ((x.op,),))
        if x.op == "PROD":
            twice = [y for y in x.args if y.op == "norm" and bare_norm(y) and x.args.count(y) == 2]
            if twice:
                y = twice[0]
                return inner(product([z for z in x.args if z is not y] + [mk("sum", (mk("pow", (y.args[0], const(2))),))]), c, key)
        if x.op in ("sum", "mean", "nansum", "item", "float", "tofloat") and x.args:
            return inner(x.args[0], c, key + (((x.op,) + tuple(sorted((n, str(v)) for n, v in x.kw)),) if x.op in ("sum", "mean") else ()))
        if x.op in ("SUM", "SCALED"):
            return all([inner(y, c * v, key) for y, v in items(x).items()])
        if x.op == "PROD" and mono(x) is None:
            mine = [y for y in x.args if syms(y, ("mu", "logvar")) and y.op not in ("size", "dim", "len")]
            s = 1
            for y in x.args:
                if y not in mine:
                    g = sign(y)
                    if g is None:
                        return False
                    s *= g
            if len(mine) != 1:
                return False
            sz = [y for y in x.args if y not in mine and y.op == "size"]
            if mine[0].op == "mean" and not mine[0].kw and len(mine[0].args) == 1 and len(sz) == 1 and sizeof(sz[0], mine[0].args[0]):
                return inner(product([z for z in x.args if z not in (sz[0], mine[0])] + [mk("sum", mine[0].args)]), c, key)
            rest = tuple(sorted(str(y.uid) for y in x.args if y not in mine))
            return inner(mine[0], c * s, key + ((("times",) + rest,) if rest else ()))
        if not syms(x, ("mu", "logvar")) or x.op in ("size", "dim", "len"):
            return True
        m = mono(x)
        if m is None:
            return False
        d = out.setdefault(key, {})
        d[m] = d.get(m, 0) + c
        return True
    return out if all([inner(k, v, ()) for k, v in items(t).items()]) else None


def product(ts):
    r = const(1)
    for t in ts:
        r = muln(r, norm(t))
    return r


def bare_norm(y):
    """the Euclidean norm of all entries"""
    return y.data != "induced" and (len(y.args) == 1 and not y.kw or len(y.args) == 2 and not y.kw and any(is_c(y.args[1], v) for v in (2, "fro", None)))


def sizeof(s, t):
    """s is the number of entries of mu or logvar, which t is made of"""
    return bool(s.args) and s.args[0].op == "sym" and s.args[0].data in ("mu", "logvar") and bool(syms(t, ("mu", "logvar")))


def judge_recon(cx, nf, k, t, loc):
    rest = {x: c for x, c in items(t).items() if syms(x, ("recon",))}
    if not rest:
        cx.put(None if opaque_in(t) else False, "increases-with-reconstruction-error", k, loc, "the loss does not contain the reconstruction")
        return
    p = Recon(nonneg(nf)).pol(build(rest))
    msg = {"+": "never decreases in the squared reconstruction error", "-": "the loss decreases when the squared reconstruction error grows",
           "mix": "one part of the loss decreases when the squared reconstruction error grows", "odd": "batch and reconstruction enter the loss other than by their difference",
           "0": "no reconstruction"}.get(p, "effect of the reconstruction error not understood")
    cx.put(True if p == "+" else False if p in ("-", "mix", "odd") else None, "increases-with-reconstruction-error", k, loc, msg)


def judge_kl(cx, nf, k, t, loc):
    rest = {x: c for x, c in items(t).items() if syms(x, ("mu", "logvar")) and not syms(x, ("recon",))}
    if not rest:
        cx.put(None if opaque_in(t) else False, "increases-with-KL", k, loc, "the loss does not contain the KL term")
        return
    pol = Recon(nonneg(nf))
    parts = split_kl(build(rest), pol.sign)
    if parts is None:
        cx.und("increases-with-KL", k, loc, "KL term not in a known form")
        return
    for key, d in parts.items():
        d = {m: c for m, c in d.items() if c}
        c = d.get("mu2", 0)
        want = {"mu2": c, ("exp", 1): c, "lv": -c}
        if c > 0 and d == want:
            cx.ok("increases-with-KL", k, loc, "positive multiple of the Gaussian KL term")
        elif c < 0 and d == want:
            cx.bad("increases-with-KL", k, loc, "the loss decreases when the KL term grows")
        elif len(parts) > 1:
            cx.und("increases-with-KL", k, loc, "the pieces of the KL term are reduced in different ways")
        else:
            cx.bad("increases-with-KL", k, loc, f"the terms in mu and logvar are not the Gaussian KL divergence: {dict((str(m), str(v)) for m, v in d.items())}")


def other_norm(t, W, name):
    """every way in which the loadings enter the loss is a recognised norm other than the named one"""
    got = []

    def go(x, above):
        if x is W:
            got.append(above)
        elif W in T.subterms(x, True):
            for y in T.children(x):
                go(y, above + (x,))
    for x in items(t):
        go(x, ())
    said = []
    for up in got:
        ops = [y.op for y in up if y.op not in ("SUM", "PROD", "SCALED", "T", "item", "float")]
        if "norm" in ops:
            continue                            # judged as the norm it is
        if name == "L1" and ops in (["max", "sum", "abs"], ["sum", "max", "abs"]):
            said.append("the largest column or row sum")
        elif name == "L1" and ops in (["sum", "pow"], ["sum", "pow", "abs"]) or name == "L1" and ops == ["sum"] and any(y.op == "PROD" for y in up):
            said.append("the sum of squares")
        else:
            return None
    return " and ".join(sorted(set(said))) if said else None


def judge_norm(cx, nf, k, t, loc, is_part, name, W):
    mine = {x: c for x, c in items(t).items() if any(y.op == "norm" and is_part(y) for y in T.subterms(x, True))}
    rule = f"increases-with-{name}"
    if not mine:
        ws = any(y.op not in ("norm",) and W is not None and W in T.children(y) for x in items(t) for y in T.subterms(x, True))
        other = ws and not opaque_in(t) and other_norm(t, W, name)
        cx.put(False if other else None if opaque_in(t) or ws else False, rule, k, loc, f"the loss does not contain the {name} norm of the loadings" + (f" but {other}" if other else ""))
        return
    pol = Polarity(lambda x: "+" if x.op == "norm" and is_part(x) else None, lambda x: any(y.op == "norm" and is_part(y) for y in T.subterms(x, True)), nonneg(nf))
    p = pol.pol(build(mine))
    cx.put({"+": True, "-": False, "mix": False}.get(p), rule, k, loc, {"+": f"never decreases in the {name} norm", "-": f"the loss decreases when the {name} norm grows",
                                                                       "mix": f"one part of the loss decreases when the {name} norm grows"}.get(p, f"effect of the {name} norm not understood"))
    if W is not None:
        for x in mine:
            for y in T.subterms(x, True):
                if y.op == "norm" and is_part(y):
                    good = bare(y.args[0]) is W
                    if good and name == "nuclear" and any("reshape" in peeled(z) for z in (y.args[0], nf.reported)):
                        good = None         # rows and columns are not those of the weight any more
                    cx.put(good if good is not False else None if opaque_in(y) else False, "penalises-reported-loadings", f"{k}: {name}", loc,
                           {True: "the penalised matrix is the reported loading matrix", None: "the loading matrix is reshaped"}.get(good, "the penalised matrix is not the reported loading matrix"))


def same(cx, nf, k, s, valid, at, loc):
    """apart from the penalties, the validation loss is the training loss that is reported, as a function of the forward pass's outputs"""
    m = c22.strip(s) if s is not None else None
    if m is None or m.op not in ("list", "tuple") or len(m.args) != 1 or m.args[0].op != "many":
        return
    got = c22.average(Mute(cx), nf, k, m.args[0].args[0], "train", None, at)
    if got is None:
        return
    train = expand(got[1])
    pick = [lambda x: syms(x, ("recon",)), lambda x: syms(x, ("mu", "logvar")) and not syms(x, ("recon",))]
    for name, f in zip(("reconstruction term", "KL term"), pick):
        a, b = ({x: c for x, c in items(u).items() if f(x)} for u in (train, valid))
        if a == b and a:
            cx.ok("validation-same-quantity", f"{k}: {name}", loc, "the same normal form in training and validation")
            continue
        pol = Recon(nonneg(nf))
        pa, pb = (split_kl(build(x), pol.sign) for x in (a, b)) if name == "KL term" and a and b else (None, None)
        if pa is None or pb is None or len(pa) != 1 or len(pb) != 1:
            cx.und("validation-same-quantity", f"{k}: {name}", loc, "cannot be compared")
            continue
        (ka, da), (kb, db) = next(iter(pa.items())), next(iter(pb.items()))
        if da == db and ka == kb:
            cx.ok("validation-same-quantity", f"{k}: {name}", loc, "the same weighted KL term in training and validation")
        else:
            red = [tuple(y for y in z if y[0] != "times") for z in (ka, kb)]
            cx.put(False if red[0] == red[1] else None, "validation-same-quantity", f"{k}: {name}", loc, "the KL term is weighted differently in training and in validation")


def bare(t):
    while t.op in ("T", "detach", "copyof", "numpy", "asarray", "ravel", "reshape") and t.args:
        t = t.args[0]
    return t


def peeled(t):
    """what bare() takes off"""
    out = set()
    while t.op in ("T", "detach", "copyof", "numpy", "asarray", "ravel", "reshape") and t.args:
        out.add("reshape" if t.op == "ravel" else t.op)
        t = t.args[0]
    return out


def one(cx, nf):
    r, key = nf.r, nf.key
    at = {}
    for p in nf.passes:
        at.update(nf.atoms(p))
    W = r.fterm(nf.model, "parameters", "weights")
    nf.reported = norm(T.subst(W, at)) if W is not None else None
    W = bare(nf.reported) if W is not None else None
    back = [e for e in r.ev("mcall") if e.d["name"] == "backward"]
    if not back:
        cx.put(False if nf.optims else None, "loss-minimised", key, None, "nothing is back-propagated")
        return
    full = None
    for b in back:
        # no gradient flows through a detached value: it is a constant for the optimiser
        t = expand(norm(map_term(T.subst(b.d["recv"], at), lambda y: mk("FROZEN", data=y.uid) if y.op == "detach" else None)))
        k = f"{key}: training loss"
        if t.op == "phi":
            cx.und("loss-minimised", k, b.loc, "loss depends on a condition")
            continue
        full = t
        judge_recon(cx, nf, k, t, b.loc)
        judge_kl(cx, nf, k, t, b.loc)
        judge_norm(cx, nf, k, t, b.loc, is_nuc, "nuclear", W)
        judge_norm(cx, nf, k, t, b.loc, is_l1, "L1", W)
    for o in nf.optims.values():
        mx = o.d["kw"].get("maximize")
        cx.put(True if mx is None or is_c(mx, False) else False if is_c(mx, True) else None, "loss-minimised", key, o.loc, "the optimiser minimises" if mx is None or is_c(mx, False) else "the optimiser maximises the loss")
    ser = nf.series()
    s = ser.get("elbo_valid")
    k = f"{key}: validation loss"
    m = c22.strip(s) if s is not None else None
    if m is None or m.op not in ("list", "tuple") or len(m.args) != 1 or m.args[0].op != "many":
        cx.und("increases-with-KL", k, None, "validation loss not identified")
        return
    got = c22.average(Mute(cx), nf, k, m.args[0].args[0], "valid", None, at)
    if got is None:
        cx.und("increases-with-KL", k, None, "validation loss of a batch not identified")
        return
    loc = next((l for l in s.locs if l), None)
    t = expand(got[1])
    judge_recon(cx, nf, k, t, loc)
    judge_kl(cx, nf, k, t, loc)
    same(cx, nf, k, ser.get("elbo_train"), t, at, loc)
    pen = [x for x in items(t) if any(y.op == "norm" and (is_nuc(y) or is_l1(y)) and bare(y.args[0]) is W for y in T.subterms(x, True))]
    cx.put(False if pen else None if opaque_in(t) else True, "validation-without-penalties", k, loc, "contains a loading penalty" if pen else "contains no loading penalty")
