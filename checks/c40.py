from .base import *
from .tools import *
from . import neural, c18
from .c21 import plainpc
from sa.values import *
import sa.terms as T

ID, TITLE = "C40", "Neural fitting works on whichever device is selected"
RULE = ("Device typing of the values of fit (domain: no device / host / the device a value was moved to), with the moves kept in the terms: a registered parameter or buffer "
        "has the device its model was moved to, a tensor made by a constructor is on the host unless a device is given, a `like` constructor follows its argument. "
        "Obligations: no operation of a forward pass, loss or error combines tensors of different devices; nothing on the selected device is converted to "
        "numpy or handed to a numpy routine before it is brought back; the reported numbers are on the host.")
ASSUMES = ["torch: tensors with elements on different devices cannot be combined, device tensors cannot be converted to numpy; host scalars combine with anything"]
TECHNIQUE = "abstract interpretation to expression terms + device typing"
_M, _V = "medil/models.py", "medil/vae.py"
WITNESSES = [
    (_M, "weight.detach().cpu().numpy().T", "weight.detach().numpy().T"),
    (_M, "        for x_batch, _ in valid_loader:\n            with torch.no_grad():\n                batch_size = x_batch.shape[0]\n                x_batch = x_batch.to(self.device)\n",
     "        for x_batch, _ in valid_loader:\n            with torch.no_grad():\n                batch_size = x_batch.shape[0]\n"),
    (_M, "                batch_size = x_batch.shape[0]\n                x_batch = x_batch.to(self.device)\n                recon_batch, logcov_batch, mu_batch, logvar_batch = model(x_batch)\n                weight_batch",
     "                batch_size = x_batch.shape[0]\n                recon_batch, logcov_batch, mu_batch, logvar_batch = model(x_batch)\n                weight_batch"),
    (_M, "        model = model.to(self.device)\n", ""),
    (_V, "eps = torch.empty_like(std).normal_()", "eps = torch.randn(std.shape)"),
    (_V, "eps = torch.empty_like(std).normal_()", "eps = torch.empty(std.shape).normal_()"),
    (_V, 'self.register_buffer("mask", mask)', "self.mask = mask"),
    (_M, "        diff = x - x_recon\n        recon_loss", "        cov = cov + 1e-6 * torch.eye(cov.shape[0])\n        diff = x - x_recon\n        recon_loss"),
    (_M, "        diff = x - x_recon\n        if weighted:", "        diff = x - torch.tensor(np.zeros(x_recon.shape)) - x_recon\n        if weighted:"),
    (_M, "                train_er += error.item() / batch_size", "                train_er += error / batch_size"),
    (_M, "            error = torch.linalg.norm(diff, ord=2)", "            error = torch.as_tensor(np.linalg.norm(diff.detach(), ord=2))"),
]
MIX = {"add", "sub", "mul", "div", "pow", "matmul", "maximum", "minimum", "where", "stack", "concat", "vstack", "hstack", "lt", "le", "eq", "ne", "and", "or",
       "phi_", "linear", "inner", "outer", "blockdiag", "floordiv", "mod", "mse", "kron"}
NONE_, HOST, ON = "none", "host", "on"
SCALAR = {"dim", "size", "len", "shape", "ndim", "dtype", "item", "str", "training", "clock", "fstr", "format", "strftime", "has", "nnz", "fan_in", "attr", "lib", "range",
          "numel", "device", "isnone", "hasattr", "callable", "file", "path", "pathjoin", "rng", "cuda_available"}


class Device:
    def __init__(self, cx, nf, late=False):
        self.cx, self.nf, self.e = cx, nf, cx.eng
        self.memo, self.clash = {}, {}
        r = nf.r
        g = c18.Graph(cx.eng, r.st)
        first, last = min([e.seq for e in nf.passes], default=0), max([e.seq for e in nf.passes], default=0)
        self.home, self.back, self.moves = {}, None, []
        for root in nf.roots:
            d = (HOST, None)
            for e in r.ev("module-to"):
                if e.d["cid"] != root:
                    continue
                x = (ON, const("cuda")) if e.d["how"] == "cuda" and not e.d["args"] else (HOST, None) if e.d["how"] == "cpu" else \
                    self.target(e.d["args"][0]) if e.d["args"] and e.d["how"] in ("to", "cuda") else None
                if x == (NONE_, None) or x is None and e.d["how"] not in ("to", "cuda"):
                    continue
                if e.seq < first:
                    d = x if not plainpc(e.pc) and not e.loops else None
                elif e.seq > last and not e.loops and x == (HOST, None):
                    if self.back is None and not plainpc(e.pc):
                        self.back = e.seq            # brought back once training is over
                elif d != x:
                    self.moves.append((e, x, root))
            if late:
                d = (HOST, None)
            elif self.moves and d is not None and not any(x is not None and not plainpc(e.pc) for e, x, _ in self.moves):
                d = None
            for cid in g.closure(ObjV(root)):
                self.home[cid] = d
        self.lib = {}
        for e in r.ev("apply"):
            if e.d["cid"] in self.home:
                self.lib[e.d["func"]] = self.home[e.d["cid"]]

    def target(self, d):
        """device value of a device expression"""
        if d.op == "device" or d.op == "str":
            return self.target(d.args[0])
        if T.is_const(d):
            v = T.cval(d)
            if v is None:
                return (HOST, None)
            if isinstance(v, str):
                return (HOST, None) if v.startswith("cpu") else (ON, d)
            return (ON, d)
        if d.op == "attr" and d.data == "device":
            x = self.dev(d.args[0])
            return x
        if d.op == "dtype" or d.op == "lib":
            return (NONE_, None)
        return (ON, d)

    def scalar(self, t):
        try:
            return self.e.lib.ndim(t) == 0
        except Exception:
            return False

    def dev(self, t):
        if t not in self.memo:
            self.memo[t] = (NONE_, None)
            self.memo[t] = self.rule(t)
        return self.memo[t]

    def join(self, t, xs, strict):
        vals = []
        for x in xs:
            d = self.dev(x)
            if d is None:
                return None
            if d[0] == HOST and self.scalar(x):
                continue
            if d[0] != NONE_ and d not in [v for v, _ in vals]:
                vals.append((d, x))
        if not vals:
            return (NONE_, None)
        if len(vals) == 1:
            return vals[0][0]
        if strict and {v[0] for v, _ in vals} == {HOST, ON}:
            self.clash[t] = (next(x for v, x in vals if v[0] == HOST), next(x for v, x in vals if v[0] == ON))
            return next(v for v, _ in vals if v[0] == ON)
        return None

    def rule(self, t):
        op, a = t.op, t.args
        kids = list(a) + [v for _, v in t.kw]
        if op == "const" or op in SCALAR or op.startswith("act:"):
            return (NONE_, None)
        if op == "param":
            return (HOST, None) if self.e.lib.ndim(t) not in (0, None) else (NONE_, None)
        if op == "todev":
            d = self.target(a[1])
            return self.dev(a[0]) if d == (NONE_, None) else d
        if op == "likedev":
            return self.dev(a[1])
        if op == "hostnew":
            return (NONE_, None) if self.scalar(a[0]) or T.is_const(a[0]) else (HOST, None)
        if op == "modtensor":
            return self.home.get(t.data[0], (HOST, None))
        if op == "ofshape":
            y = a[1]
            return self.dev(y.args[0]) if y.op == "shape" else None
        if op == "draw":
            if a and a[0].op == "lib":
                return self.join(t, [x for x in kids[1:] if x.op != "shape"], False)
            return (HOST, None)
        if op == "apply":
            if a[0] in self.lib:
                m, x = self.lib[a[0]], self.join(t, kids[1:], True)
                if m is None or x is None:
                    return None
                if {m[0], x[0]} == {HOST, ON}:
                    self.clash[t] = (a[0], a[1]) if m[0] == HOST else (a[1], a[0])
                return m if m[0] == ON else x
            return self.join(t, kids[1:], False)
        if op in ("full", "empty", "eye", "arange", "standardize", "split", "asfloat32"):
            return (HOST, None)
        if op == "phi":
            return self.join(t, a[1:], False)
        if op == "mu":
            m = T.MU[t.data]
            return self.join(t, [m["init"], m["next"]], False)
        if op in ("elem", "getitem", "astype", "gen", "iter", "many"):
            return self.join(t, a[:1], False)
        if op == "obj" or op.startswith("new:torch.optim"):
            return (NONE_, None)
        return self.join(t, kids, op in MIX)


def closure(roots):
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += T.children(x)
        if x.op == "mu":
            todo += [T.MU[x.data]["init"], T.MU[x.data]["next"]]
    return seen


def check(cx):
    cx.eng.devices = True
    for nf in neural.fits(cx):
        one(cx, nf)


def one(cx, nf):
    key = nf.key
    if not nf.forwards:
        cx.und("one-device", key, None, "no forward pass found")
        return
    dv = Device(cx, nf)
    r = nf.r
    roots = [(e.d["result"], e.loc, "forward pass") for e in nf.passes]
    roots += [(e.d["recv"], e.loc, "back-propagated loss") for e in r.ev("mcall") if e.d["name"] == "backward"]
    roots += [(v, None, f"reported {k}") for k, v in nf.series().items()]
    done = set()
    for t, loc, what in roots:
        unknown = dv.dev(t) is None and t.op not in ("tuple", "list")
        hits = []
        for x in closure([t]):
            d = dv.dev(x)
            if x in dv.clash and x not in done:
                done.add(x)
                hits.append(x)
        for x in hits:
            h, o = dv.clash[x]
            cx.bad("one-device", f"{key}: {what}", (x.locs or h.locs or [loc])[0], f"{T.show(h, 1)[:80]} is on the host, but is combined with a value on the selected device")
        if not hits:
            cx.put(None if unknown else True, "one-device", f"{key}: {what}", loc, "every operation combines values of one device" if not unknown else "device not determined")
    for e, x, root in dv.moves:
        nxt = [p for p in nf.passes if p.seq > e.seq and p.d["cid"] == root and p.loops[:len(e.loops)] == e.loops]
        then = [f for f, _, _ in dv.moves if f.seq > e.seq]
        if nxt and not [f for f in then if f.seq < nxt[0].seq] and x is not None and not plainpc(e.pc) and nxt[0].d["args"]:
            b = dv.dev(nxt[0].d["args"][0])
            cx.put(None if b is None or b[0] == NONE_ else b[0] == x[0], "one-device", f"{key}: moved between passes", e.loc,
                   "the network and its next batch are on " + ("different devices" if b and b[0] != x[0] else "the same device"))
        else:
            cx.und("one-device", f"{key}: moved between passes", e.loc, "the network is moved between passes")
    n = 0
    host = Device(cx, nf, late=True) if dv.back is not None else None
    for e in r.ev("tohost", "hostcall"):
        here = dv
        if host is not None and e.seq > dv.back:
            dv, here = host, dv
        for x in [e.d["term"]] if e.kind == "tohost" else e.d["args"]:
            d = dv.dev(x)
            n += 1
            if d is not None and d[0] == ON and x.op not in ("tuple", "list", "obj"):
                cx.bad("back-to-host", key, e.loc, f"{T.show(x, 1)[:80]} may be on a device other than the host when it is converted to numpy")
            elif d is not None and d[0] == ON and any((dv.dev(y) or (0,))[0] == ON for y in flat(x)):
                cx.bad("back-to-host", key, e.loc, "a list of device tensors is handed to numpy")
        dv = here
    cx.put(True, "back-to-host", f"{key}: conversions", None, f"{n} values handed to numpy looked at")
    for k, v in nf.series().items():
        d = dv.dev(v)
        cx.put(None if d is None else d[0] != ON, "reports-on-host", f"{key}: {k}", None, "reported on the host" if d and d[0] != ON else "reported on the selected device")


def flat(x):
    out, todo = [], [x]
    while todo:
        y = todo.pop()
        if y.op in ("list", "tuple", "many"):
            todo += y.args
        else:
            out.append(y)
    return out
