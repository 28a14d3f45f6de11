from .base import *
from .tools import *
from sa.values import *
from sa.normal import norm, items, ONE, num
from fractions import Fraction

ID, TITLE = "C20", "The autoencoder is deterministic in evaluation mode"
RULE = ("Effect and value analysis of the forward pass with the mode flag as a symbolic boolean: with the flag false no reachable draw of random numbers (path "
        "conditions specialised) and the decoder's input is the latent mean that is returned; with the flag true the decoder's input is affine in one standard "
        "normal draw, with intercept equal to the returned mean and log-scale equal to half the returned log-variance (normal forms compared).")
ASSUMES = ["Module.training is the mode flag and is propagated to registered sub-modules", "library layers other than dropout and randomised activations draw no random numbers"]
V = "medil.vae.VariationalAutoencoder"
WITNESSES = [
    ("medil/vae.py", "        if self.training:\n            std", "        if True:\n            std"),
    ("medil/vae.py", "        if self.training:\n            std", "        if not self.training:\n            std"),
    ("medil/vae.py", "std = logvar.mul(0.5).exp_()", "std = logvar.exp_()"),
    ("medil/vae.py", "std = logvar.mul(0.5).exp_()", "std = logvar.mul(0.5).exp_() + 1e-3"),
    ("medil/vae.py", "eps = torch.empty_like(std).normal_()", "eps = torch.empty_like(std).uniform_()"),
    ("medil/vae.py", "return eps.mul(std).add_(mu)", "return eps.mul(std)"),
    ("medil/vae.py", "        else:\n            return mu\n", "        else:\n            return mu + logvar.exp()\n"),
    ("medil/vae.py", "        mean = self.mean_linear_output(mean)\n", "        mean = self.mean_linear_output(torch.nn.functional.dropout(mean, 0.1))\n"),
    ("medil/vae.py", "        return x_recon, logcov, mu, logvar", "        return x_recon, logcov, latent, logvar"),
]


def modes(t):
    return [x for x in T.subterms(t, True) if x.op == "training"]


def linform(t):
    """linear combination {term: coefficient}, or None"""
    return dict(items(norm(t)))


def logform(t):
    """log of a positive term as a linear combination, or None"""
    if t.op == "exp":
        return linform(t.args[0])
    if t.op == "sqrt":
        r = logform(t.args[0])
        return None if r is None else {k: v / 2 for k, v in r.items()}
    if t.op == "mul":
        out = {}
        for a in t.args:
            r = logform(a)
            if r is None:
                return None
            for k, v in r.items():
                out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v}
    if t.op == "pow" and num(t.args[1]) is not None:
        r = logform(t.args[0])
        return None if r is None else {k: v * num(t.args[1]) for k, v in r.items()}
    if num(t) == 1:
        return {}
    return None


def affine(t, d):
    """(intercept, slope) of t as an affine function of d, or None"""
    if t is d:
        return const(0), const(1)
    if not contains_term(t, d):
        return t, const(0)
    if t.op in ("add", "sub"):
        a, b = affine(t.args[0], d), affine(t.args[1], d)
        if a is None or b is None:
            return None
        return mk(t.op, (a[0], b[0])), (a[1] if is_c(b[1], 0) else (b[1] if t.op == "add" else mk("neg", (b[1],))) if is_c(a[1], 0) else mk(t.op, (a[1], b[1])))
    if t.op == "mul":
        ins = [x for x in t.args if contains_term(x, d)]
        if len(ins) != 1:
            return None
        rest = [x for x in t.args if not contains_term(x, d)]
        r = affine(ins[0], d)
        if r is None:
            return None
        k = rest[0]
        for x in rest[1:]:
            k = mk("mul", (k, x))
        return (const(0) if is_c(r[0], 0) else mk("mul", (r[0], k))), (k if is_c(r[1], 1) else mk("mul", (r[1], k)))
    if t.op in ("copyof", "astype", "asarray"):
        return affine(t.args[0], d)
    return None


def contains_term(t, d):
    return d in T.subterms(t, True)


def check(cx):
    if not cx.has(V):
        return
    box = {}

    def build(_):
        x = cx.p("x", "tensor", 2, nonempty=True)
        box["x"] = cx.eng.term(x)
        m = cx.call(V, cx.p("num_vae_latent", "int", lo=1), cx.p("num_meas", "int", lo=1), cx.p("num_hidden_layers", "int", lo=0), cx.p("width_per_meas", "int", lo=1))
        return cx.call(m, x)
    r = cx.run("autoencoder of symbolic size", build)
    if r is None or r.st is None:
        cx.und("evaluation", "autoencoder", None, "not analysed")
        return
    out = r.term()
    fwds = [e for e in r.ev("forward") if sum(q.endswith(".forward") for q, _ in e.stack) == 1 and e.d["args"] and e.d["args"][0] is not box["x"]]
    # no draws in evaluation mode
    n = 0
    for e in r.ev("draw", "mode", "seed"):
        if not any(q.endswith(".forward") for q, _ in e.stack):
            continue
        if e.kind == "mode":
            cx.bad("no-noise-in-evaluation", f"mode switch in {e.stack[-1][0]}", e.loc, "the forward pass changes the mode of a module")
            continue
        if e.kind == "seed":
            continue
        n += 1
        c = T.TRUE
        for q in e.pc:
            c = T.land(c, q)
        ms = modes(c)
        ev = T.subst(c, {m: T.FALSE for m in ms})
        tr = T.subst(c, {m: T.TRUE for m in ms})
        cx.put(True if ev is T.FALSE else False if ev is T.TRUE else None, "no-noise-in-evaluation", f"{e.d['method']} draw in {e.stack[-1][0].replace('medil.vae.', '')}", e.loc,
               "drawn only in training mode" if ev is T.FALSE else "random numbers are drawn in evaluation mode" if ev is T.TRUE else "condition of a draw not resolved")
    for e in r.ev("apply"):
        f = e.d["func"]
        if f.op.startswith("new:torch.nn.") and f.op.split(".")[-1] in ("RReLU",):
            cx.und("no-noise-in-evaluation", f.op, e.loc, "randomised activation")
    if out.op != "tuple" or len(out.args) != 4 or len({e.d["args"][0] for e in fwds}) != 1:
        cx.und("latent", "decoder input", None, "latent input of the decoder or the returned mean not identified")
        return
    z, mu, lv = fwds[0].d["args"][0], out.args[2], out.args[3]
    loc = fwds[0].loc

    def at(t, val):
        return T.subst(t, {m: val for m in modes(t)})
    ze, me = at(z, T.FALSE), at(mu, T.FALSE)
    same = norm(ze) is norm(me)
    unclear = ze.op in ("opaque", "rec", "call") or modes(ze)
    cx.put(True if same else None if unclear else False, "evaluation-decodes-mean", "decoder input in evaluation mode", loc, "is the returned latent mean" if same else "differs from the returned latent mean")
    zt, mt, lt = at(z, T.TRUE), at(mu, T.TRUE), at(lv, T.TRUE)
    ds = [x for x in T.subterms(zt, True, stop=lambda x: x is mt or x is lt) if x.op == "draw" and not str(x.data[0]).startswith("init")]
    ds = [x for x in ds if x.data[0] != "layer-init"]
    if not ds:
        cx.put(None if opaque_in(zt) else False, "training-noise", "decoder input in training mode", loc, "no latent noise in training mode")
        return
    if len(ds) != 1:
        cx.und("training-noise", "decoder input in training mode", loc, "several draws")
        return
    d = ds[0]
    af = affine(zt, d)
    kind = d.data[0]
    if kind == "normal" and len(d.args) == 3 or kind == "normal" and {k for k, _ in d.kw} & {"loc", "scale"}:
        k = dict(d.kw)
        l0, s0 = (d.args[1], d.args[2]) if len(d.args) == 3 else (k.get("loc", d.args[1] if len(d.args) > 1 else const(0)), k.get("scale", const(1)))
        if af is not None:
            a0, b0 = af
            af = (T.mk("add", (a0, l0 if is_c(b0, 1) else mk("mul", (b0, l0)))), s0 if is_c(b0, 1) else mk("mul", (b0, s0)))
            kind = "standard_normal"
    if kind == "normal" and len(d.args) == 1:
        kind = "standard_normal"
    if kind in ("random", "uniform", "rand", "exponential", "bernoulli", "poisson"):
        cx.bad("training-noise", "decoder input in training mode", loc, f"latent noise is drawn from {kind}, not a standard normal")
        return
    if kind != "standard_normal" or af is None:
        cx.und("training-noise", "decoder input in training mode", loc, f"not affine in a normal draw ({kind})")
        return
    a0, b0 = af
    ctr = norm(a0) is norm(mt)
    cx.put(ctr, "noise-centred-on-mean", "decoder input in training mode", loc, "centre is the returned mean" if ctr else "centre of the latent noise is not the returned mean")
    got = logform(b0)
    want = {k: v / 2 for k, v in linform(lt).items()}
    if got is None:
        pos = b0.op in ("add", "sub", "exp", "sqrt", "relu", "abs", "const", "softplus", "div", "neg") or norm(b0) is norm(lt)
        cx.put(False if pos else None, "noise-scale", "decoder input in training mode", loc, "scale of the latent noise is not exp(logvar/2)")
    else:
        cx.put(got == want, "noise-scale", "decoder input in training mode", loc, "scale is exp(logvar/2)" if got == want else "scale of the latent noise is not exp(logvar/2)")
