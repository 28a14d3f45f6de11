from .base import *
from .tools import *
from sa.values import *
from sa.shapes import Shapes, P

ID, TITLE = "C19", "Decoder blocks of different measurements never mix"
RULE = ("Abstract interpretation of the decoder's output expressions (symbolic numbers of latents, measurements, width and hidden layers; the hidden-layer loop "
        "as a fixpoint) in the domain {free of the latent, function of the latent, block-partitioned by measurement, mixed}: after the first layer every linear "
        "map must multiply its weight by a mask that is block diagonal with one block per measurement, inside the forward expression; anything that combines "
        "features across the feature axis mixes.")
ASSUMES = ["torch.block_diag places its i-th argument in the i-th diagonal block and zeros elsewhere", "elementwise activations act feature by feature"]
V = "medil.vae.VariationalAutoencoder"
WITNESSES = [
    ("medil/vae.py", "self.weight * self.mask, self.bias", "self.weight, self.bias"),
    ("medil/vae.py", "self.weight * self.mask, self.bias", "self.weight + self.mask - 1, self.bias"),
    ("medil/vae.py", "        hidden_mask = torch.block_diag(*hidden_blocks)", "        hidden_mask = torch.ones(self.hidden_dim, self.hidden_dim)"),
    ("medil/vae.py", "            in_features=self.hidden_dim, out_features=self.output_dim, mask=output_mask\n        )\n\n        self.activation", "            in_features=self.hidden_dim, out_features=self.output_dim\n        )\n\n        self.activation"),
    ("medil/vae.py", "        self.activation = torch.nn.Sigmoid()", "        self.activation = torch.nn.Softmax(dim=1)"),
    ("medil/vae.py", "        hidden_blocks = [hidden_block for _ in range(num_meas)]", "        hidden_blocks = [hidden_block for _ in range(num_meas // 2)] + [torch.ones(width_per_meas * 2, width_per_meas * 2)]"),
    ("medil/vae.py", "            mean = hidden_layer(mean)\n", "            mean = hidden_layer(mean) + mean.mean(dim=1, keepdim=True)\n"),
    ("medil/vae.py", "            logcov = hidden_layer(logcov)\n", "            logcov = hidden_layer(logcov.flip(1))\n"),
    ("medil/vae.py", "        hidden_block = torch.ones(width_per_meas, width_per_meas)\n        hidden_blocks = [hidden_block for _ in range(num_meas)]",
     "        hidden_block = torch.ones(num_meas, num_meas)\n        hidden_blocks = [hidden_block for _ in range(width_per_meas)]"),
]
POINTWISE = {"sigmoid", "relu", "tanh", "softplus", "exp", "log", "neg", "abs", "sqrt", "pow", "mul", "add", "sub", "div", "maximum", "minimum", "clip", "where",
             "sin", "cos", "square", "astype", "copyof", "detach", "sign", "softsign", "elu", "gelu", "leaky_relu", "log1p", "expm1", "copy", "clone", "asarray"}
ACROSS = {"sum", "mean", "var", "std", "max", "min", "softmax", "norm", "cumsum", "sort", "flip", "roll", "prod", "logsumexp", "median", "log_softmax", "layer_norm", "cumprod"}
FREE, Z, BLOCK, MIXED, UNK = "free", "z", "block", "mixed", "unknown"


class Blocks:
    def __init__(self, eng, z, M):
        self.eng, self.z, self.M = eng, z, M
        self.sh = Shapes(eng, {}, {})
        self.memo, self.assume = {}, {}
        self.why = []
        self.masked = 0

    def mix(self, t, why):
        self.why.append((t, why))
        return MIXED

    def unk(self, t, why):
        self.why.append((t, "?" + why))
        return UNK

    def level(self, t):
        if t in self.assume:
            return self.assume[t]
        if t in self.memo:
            return self.memo[t]
        r = self.memo[t] = self._level(t)
        return r

    def join(self, t, ls):
        ls = [x for x in ls if x != FREE]
        for w in (MIXED, UNK):
            if w in ls:
                return w
        if not ls:
            return FREE
        if all(x == ls[0] for x in ls):
            return ls[0]
        return self.mix(t, "combines hidden units with the latent vector itself")

    def _level(self, t):
        if t is self.z:
            return Z
        if self.z not in closure(t):
            return FREE
        if t.op == "mu":
            d = T.MU[t.data]
            cur = self.level(d["init"])
            for _ in range(4):
                self.assume[t] = cur
                save = dict(self.memo)
                nxt = self.level(d["next"])
                if nxt == cur:
                    break
                self.memo = save
                cur = nxt if nxt in (MIXED, UNK) else nxt
                if cur == BLOCK and self.level(d["init"]) == Z:
                    cur = self.unk(t, "layer loop also maps the latent vector")
            self.assume.pop(t, None)
            return cur
        if t.op in ("matmul", "mm", "linear"):
            return self.linear(t)
        if t.op == "apply" and t.args[0].op.startswith("new:torch.nn."):
            n = t.args[0].op[len("new:torch.nn."):]
            x = self.level(t.args[1])
            if n in ("Linear", "Bilinear", "LayerNorm", "Softmax", "LogSoftmax", "GroupNorm", "Conv1d"):
                if x == Z:
                    return BLOCK if n == "Linear" else Z
                return self.mix(t, f"dense {n} layer over the hidden units") if x == BLOCK else x
            if n in ("Dropout", "BatchNorm1d", "LeakyReLU", "ELU", "GELU", "SiLU", "ReLU6", "Hardtanh", "SELU", "CELU", "Softsign", "LogSigmoid"):
                return x
            return x if x in (FREE, Z, MIXED) else self.unk(t, f"layer {n}")
        if t.op == "mcall" and t.data in ACROSS:
            return self.across(t, t.data)
        if t.op in POINTWISE or t.op == "mcall" and t.data in POINTWISE:
            return self.join(t, [self.level(a) for a in t.args])
        if t.op.removeprefix("np:") in ACROSS:
            return self.across(t, t.op.removeprefix("np:"))
        if t.op == "phi":
            return self.join(t, [self.level(a) for a in t.args[1:]])
        if t.op == "tuple":
            return self.join(t, [self.level(a) for a in t.args])
        x = self.join(t, [self.level(a) for a in T.children(t)])
        return x if x in (FREE, Z, MIXED) else self.unk(t, f"operation {t.op}")

    def across(self, t, op):
        x = self.join(t, [self.level(a) for a in t.args])
        if x != BLOCK:
            return x
        ax = t.kw.get("axis") if isinstance(t.kw, dict) else dict(t.kw).get("axis")
        if ax is None:
            ax = t.args[1] if len(t.args) > 1 else None
        if ax is not None and is_c(ax, 0):
            return x
        return self.mix(t, f"{op} over the feature axis")

    def linear(self, t):
        a, b = t.args[0], t.args[1]
        la, lb = self.level(a), self.level(b)
        if lb != FREE:
            if la == FREE and b.op == "T":
                a, b, la, lb = b.args[0], mk("T", (a,)), self.level(b.args[0]), FREE
            else:
                return self.unk(t, "product of two latent-dependent arrays")
        if la in (FREE, MIXED, UNK):
            return la
        w = b.args[0] if b.op == "T" else None
        if la == Z:
            return BLOCK
        if w is None:
            w = mk("T", (b,)) if b.op != "T" else b.args[0]
        v = self.mask(w)
        if v is True:
            self.masked += 1
            return BLOCK
        if v is False:
            return self.mix(t, "weight after the first layer is not masked by one diagonal block per measurement")
        return self.unk(t, "mask of a weight not understood")

    def mask(self, w):
        """does the weight carry a mask with one diagonal block per measurement?"""
        best = False
        for f in factors(w):
            r = self.blocky(f)
            if r is True:
                return True
            if r is None:
                best = None
        if best is None:
            from sa.normal import norm, items
            its = items(norm(w))
            drawn = [x for x in its if any(y.op in ("draw", "empty") for y in closure(x))]
            if len(drawn) == 1 and len(its) > 1 and (drawn[0].op in ("draw", "empty") or drawn[0].op == "ofshape" and drawn[0].args[0].op == "draw"):
                return False                # a free weight plus something fixed: free outside the blocks too
        return best

    def blocky(self, m):
        if m.op in ("astype", "asarray", "copyof", "copy", "T", "float", "bool"):
            return self.blocky(m.args[0])
        if m.op == "blockdiag":
            n, unit = self.count(m.args)
            if n is None:
                return None
            if n == self.M:
                return True
            return True if unit else False
        if m.op == "kron" and m.args[0].op == "eye":
            n = self.sh.shape(m.args[0])
            if n and n[0] == self.M:
                return True
            return None
        if m.op == "eye":
            return True
        if m.op in ("full", "ofshape", "triu", "tril", "draw", "empty"):
            return False
        if m.op == "const":
            return False
        if m.op == "phi":
            rs = [self.blocky(a) for a in m.args[1:]]
            return True if all(r is True for r in rs) else False if False in rs else None
        return None

    def count(self, args):
        """number of diagonal blocks, and whether all are 1x1"""
        tot, unit = P(0), True
        for a in args:
            if a.op == "star":
                x = a.args[0]
                if x.op == "mul" and len(x.args) == 2 and any(y.op in ("list", "tuple") for y in x.args):
                    lst = next(y for y in x.args if y.op in ("list", "tuple"))
                    k = x.args[0] if lst is x.args[1] else x.args[1]
                    tot = tot + self.sh.poly(k) * P(len(lst.args))
                    unit = unit and all(self.one(y) for y in lst.args)
                    continue
                if x.op not in ("list", "tuple", "gen"):
                    return None, False
                for y in x.args:
                    if y.op == "many":
                        if len(y.args) < 2:
                            return None, False
                        k = P(1)
                        for it in y.args[1:]:
                            if it.op != "range" or len(it.args) != 1:
                                return None, False
                            k = k * self.sh.poly(it.args[0])
                        tot = tot + k
                        unit = unit and self.one(y.args[0])
                    else:
                        tot = tot + P(1)
                        unit = unit and self.one(y)
            else:
                tot = tot + P(1)
                unit = unit and self.one(a)
        return tot, unit

    def one(self, b):
        s = self.sh.shape(b)
        return s is not None and all(x == P(1) for x in s)


def factors(w):
    if w.op == "mul":
        out = []
        for a in w.args:
            out += factors(a)
        return out
    if w.op == "where" and len(w.args) == 3:
        return factors(w.args[0]) + factors(w.args[1])
    if w.op in ("astype", "asarray", "copyof"):
        return factors(w.args[0])
    if w.op == "T":
        return [mk("T", (f,)) if f.op != "T" else f.args[0] for f in factors(w.args[0])]
    return [w]


_cl = {}


def closure(t):
    r = _cl.get(t)
    if r is None:
        r = _cl[t] = frozenset(T.subterms(t, True))
    return r


def check(cx):
    if not cx.has(V):
        return
    box = {}

    def build(_):
        M = cx.p("num_meas", "int", lo=1)
        box["M"] = cx.eng.term(M)
        x = cx.p("x", "tensor", 2, nonempty=True)
        box["x"] = cx.eng.term(x)
        m = box["m"] = cx.call(V, cx.p("num_vae_latent", "int", lo=1), M, cx.p("num_hidden_layers", "int", lo=0), cx.p("width_per_meas", "int", lo=1))
        return cx.call(m, x)
    r = cx.run("autoencoder of symbolic size", build)
    if r is None or r.st is None:
        cx.und("blocks", "autoencoder", None, "not analysed")
        return
    zs, loc = [], None
    for e in r.ev("forward"):
        if sum(q.endswith(".forward") for q, _ in e.stack) == 1 and e.d["args"] and e.d["args"][0] is not box["x"]:
            if e.d["args"][0] not in zs:
                zs.append(e.d["args"][0])
            loc = e.loc
    out = r.term()
    if len(zs) != 1 or out.op != "tuple" or len(out.args) < 2:
        cx.und("blocks", "decoder", loc, "latent input of the decoder not identified")
        return
    for i, name in enumerate(("reconstruction", "log-variance")):
        b = Blocks(cx.eng, zs[0], Shapes(cx.eng, {}, {}).poly(box["M"]))
        lv = b.level(out.args[i])
        t, why = (b.why[0] if b.why else (out.args[i], ""))
        where = next((l for l in t.locs if l), loc) if t is not None else loc
        if lv == BLOCK:
            cx.put(True if b.masked else None, "blocks-separate", name, loc, f"{b.masked} block-masked linear maps after the first layer")
        elif lv == MIXED:
            t, why = next((x for x in b.why if not x[1].startswith("?")), (t, why))
            cx.bad("blocks-separate", name, next((l for l in t.locs if l), loc), why)
        elif lv in (Z, FREE):
            cx.und("blocks-separate", name, loc, "output does not depend on a decoder layer")
        else:
            cx.und("blocks-separate", name, where, why)
