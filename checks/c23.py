import ast
from .base import *
from .tools import *
from . import neural
from sa.values import *
from sa.normal import norm, items, num, build, expand
from sa.shapes import Shapes

ID, TITLE = "C23", "Every hyperparameter takes effect, and only declared ones are read"
RULE = ("Taint/provenance analysis: the declared hyperparameters' values are replaced by symbols and fit is evaluated; every symbol must occur in an expression that "
        "determines the fitted model (back-propagated loss, optimiser, loaders, loop bounds, weight shapes); each sink must hold exactly the symbol it is named after "
        "(learning rate, batch size, epochs, depth, width; beta/lambda/mu as coefficients of KL, nuclear and L1 norms in the loss's normal form; test method and level "
        "at the graph-estimation call). Every key read anywhere in the class must be declared.")
ASSUMES = ["hyperparameters are read through self.hyperparams"]
N = neural.N
WITNESSES = [
    ("medil/models.py", 'lr=self.hyperparams["lr"]', "lr=0.005"),
    ("medil/models.py", 'batch_size=self.hyperparams["batch_size"]', "batch_size=128"),
    ("medil/models.py", 'llambda, mu = self.hyperparams["lambda"], self.hyperparams["mu"]', 'llambda, mu = self.hyperparams["mu"], self.hyperparams["lambda"]'),
    ("medil/models.py", '        num_hidden_layers = self.hyperparams["num_hidden_layers"]\n        width_per_meas = self.hyperparams["width_per_meas"]', '        width_per_meas = self.hyperparams["num_hidden_layers"]\n        num_hidden_layers = self.hyperparams["width_per_meas"]'),
    ("medil/models.py", '                    weight_batch,\n                    self.hyperparams["beta"],', "                    weight_batch,\n                    1,"),
    ("medil/models.py", "        loss = -beta * kl_div + recon_loss", "        loss = -kl_div + beta * recon_loss"),
    ("medil/models.py", 'significance_level=self.hyperparams["alpha"]', "significance_level=0.05"),
    ("medil/models.py", 'lr=self.hyperparams["lr"]', 'lr=self.hyperparams["learning_rate"]'),
    ("medil/models.py", "            num_vae_latent, num_meas, num_hidden_layers, width_per_meas\n        )\n        model", "            num_vae_latent, num_meas, width_per_meas, num_hidden_layers\n        )\n        model"),
    ("medil/models.py", 'range(self.hyperparams["num_epochs"])', "range(200)"),
    ("medil/models.py", 'num_hidden_layers = self.hyperparams["num_hidden_layers"]', 'num_hidden_layers = bool(self.hyperparams["num_hidden_layers"])'),
    ("medil/vae.py", "                for layer_idx in range(num_hidden_layers)\n            }\n        )\n        self.cov", "                for layer_idx in range(1)\n            }\n        )\n        self.cov"),
]


def hyper(cx, m, box):
    h = cx.eng.getattr(m, "hyperparams")
    box["hp"] = {}
    if not isinstance(h, DictV):
        return
    for k, v in list(cx.eng.st.heap[h.cid].entries.items()):
        name = k.v if isinstance(k, ConstV) else T.cval(k) if isinstance(k, T.Term) else k
        t = cx.eng.term(v)
        c = T.cval(t) if T.is_const(t) else 0
        kind = "bool" if isinstance(c, bool) else "int" if isinstance(c, int) else "float" if isinstance(c, float) else "str"
        p = cx.p("hp_" + str(name), kind, lo=0 if kind in ("int", "float") else None)
        box["hp"][name] = cx.eng.term(p)
        cx.eng.setitem(h, ConstV(name), p)


def through(ts):
    """all subterms, entering loop-carried values"""
    seen, todo = set(), list(ts)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += T.children(x)
        if x.op == "mu":
            todo += [T.MU[x.data]["init"], T.MU[x.data]["next"]]
    return seen


def check(cx):
    for nf in neural.fits(cx, hyper=hyper):
        one(cx, nf)
    graph(cx)
    declared(cx)


def one(cx, nf):
    r, key, hp = nf.r, nf.key, nf.box["hp"]
    if not hp:
        cx.und("declared", key, None, "no hyperparameter dictionary")
        return
    eff = []
    opt = list(nf.optims.values())
    for o in opt:
        eff += list(o.d["kw"].values()) + [o.d["params"]]
    back = [e for e in r.ev("mcall") if e.d["name"] == "backward"]
    eff += [e.d["recv"] for e in back]
    for e in r.ev("draw", "split"):
        eff += [e.d["term"]] + list(e.d["kw"].values())
    for e in r.ev("draw", "forward", "mcall"):
        for l in e.loops:
            it = cx.eng.loopiter.get(l)
            if it is not None and not (e.kind == "mcall" and e.d["name"] not in ("step", "backward")):
                eff.append(it)
        if e.kind != "mcall" or e.d["name"] in ("step", "backward"):
            eff += [c for c in e.pc if c.op != "inloop"]
    vae = r.fterm(nf.model, "parameters", "weights")
    if vae is not None:
        eff.append(vae)
    for x in nf.forwards:
        eff += list(x.d["args"])
    seen = through(eff)
    for name, s in hp.items():
        cx.put(True if s in seen else False, "influences-fit", str(name) if not s in seen else f"{key}: {name}", None,
               f"hyperparameter {name!r} reaches an expression that determines the fitted model" if s in seen else f"hyperparameter {name!r} has no influence on fitting")

    def exact(name, got, loc, what):
        if name not in hp:
            return
        if got is None:
            cx.und("routed", f"{key}: {name}", loc, f"{what} not identified")
            return
        cx.put(True if got is hp[name] else None if opaque_in(got) else False, "routed", f"{key}: {name}", loc, f"{what} is hyperparameter {name!r}" if got is hp[name] else f"{what} is {str(got)[:60]}, not hyperparameter {name!r}")
    for o in opt:
        exact("lr", o.d["kw"].get("lr"), o.loc, "learning rate")
    loaders = {}
    for e in r.ev("forward", "mcall"):
        for l in e.loops:
            it = cx.eng.loopiter.get(l)
            for x in T.subterms(it, True) if it is not None else ():
                if x.op.endswith("DataLoader"):
                    loaders[x] = e.loc
    for x, loc in loaders.items():
        exact("batch_size", dict(x.kw).get("batch_size", x.args[1] if len(x.args) > 1 else None), loc, "batch size")
    tr = [e for e in nf.forwards if "train" in set().union(*[nf.split(a) for a in e.d["args"]])]
    if tr and tr[0].loops and "num_epochs" in hp:
        it = cx.eng.loopiter.get(tr[0].loops[0])
        sh = Shapes(cx.eng, {}, {})
        n = None if it is None or it.op != "range" else sh.poly(it.args[0]) if len(it.args) == 1 else sh.poly(it.args[1]) - sh.poly(it.args[0]) if len(it.args) == 2 else None
        good = n is not None and n == sh.poly(hp["num_epochs"])
        cx.put(True if good else None if n is None else False, "routed", f"{key}: num_epochs", tr[0].loc, "number of epochs is hyperparameter 'num_epochs'" if good else f"epoch loop runs over {str(it)[:60]}")
    architecture(cx, nf, hp)
    loss(cx, nf, hp, back)


def architecture(cx, nf, hp):
    r, key = nf.r, nf.key
    D, W = hp.get("num_hidden_layers"), hp.get("width_per_meas")
    inl, outl = [], []
    for e in r.ev("draw"):
        m = str(e.d["method"])
        if not (m.startswith("init:") or m == "layer-init"):
            continue
        its = [cx.eng.loopiter.get(l) for l in e.loops]
        (inl if its else outl).append((e, its))
    if D is not None:
        for e, its in inl:
            it = its[-1]
            good = it is not None and it.op == "range" and it.args[-1] is D and (len(it.args) == 1 or len(it.args) == 2 and is_c(it.args[0], 0))
            deps = {k for k, s in hp.items() if it is not None and s in T.subterms(it, True)}
            flag = it is not None and it.op == "range" and any(x.op == "toBool" and D in T.subterms(x, True) for x in it.args)
            cx.put(True if good else False if it is not None and it.op == "range" and ("num_hidden_layers" not in deps or flag) else None, "routed", f"{key}: num_hidden_layers", e.loc,
                   "number of hidden layers is hyperparameter 'num_hidden_layers'" if good else f"hidden layers are created over {str(it)[:60]}")
    if D is not None and W is not None:
        odd = any(i is not None and i.op == "range" and i.args and D in T.subterms(i, True) and not (i.args[-1] is D and (len(i.args) == 1 or is_c(i.args[0], 0))) for _, its in inl for i in its)
        for e, its in outl:
            for x in T.subterms(e.d["term"], True):
                a = x.args[0] if x.op in ("empty", "full") and x.args else None
                if a is not None and a.op == "tuple" and len(a.args) == 2 and all(W in T.subterms(y, True) for y in a.args):
                    cond = odd or any(D in T.subterms(c, True) for c in e.pc)
                    cx.put(None if cond else False, "routed", f"{key}: num_hidden_layers", e.loc, "a hidden layer is created whatever the value of hyperparameter 'num_hidden_layers'")
    if W is not None:
        hid = 0
        for e, its in inl + outl:
            dims = set()
            for x in T.subterms(e.d["term"], True):
                if x.op in ("empty", "full") and x.args:
                    dims |= set(T.subterms(x.args[0], True))
            kw = dict(e.d["term"].kw)
            for v in kw.values():
                dims |= set(T.subterms(v, True))
            other = [k for k, s in hp.items() if s in dims and k != "width_per_meas"]
            if other:
                cx.bad("routed", f"{key}: width_per_meas", e.loc, f"a layer's size depends on hyperparameter {other[0]!r}")
            elif W in dims:
                hid += 1
        if hid:
            cx.ok("routed", f"{key}: width_per_meas", None, f"size of {hid} weights grows with hyperparameter 'width_per_meas'")
        else:
            cx.put(None, "routed", f"{key}: width_per_meas", None, "no layer size depends on it")


def loss(cx, nf, hp, back):
    key = nf.key
    at = {}
    for p in nf.passes:
        at.update(nf.atoms(p))
    for b in back:
        t = expand(norm(T.subst(b.d["recv"], at)))
        its = items(t)
        if t.op == "phi" or opaque_in(t):
            cx.und("routed", f"{key}: loss coefficients", b.loc, "loss not a sum")
            continue
        for name, is_part, label in (("beta", lambda x: any(y.op == "sym" and y.data in ("mu", "logvar") for y in T.subterms(x, True)), "the KL term"),
                                     ("lambda", lambda x: any(y.op == "norm" and is_nuc(y) for y in T.subterms(x, True)), "the nuclear norm"),
                                     ("mu", lambda x: any(y.op == "norm" and is_l1(y) for y in T.subterms(x, True)), "the L1 norm")):
            if name not in hp:
                continue
            s = hp[name]
            mine = [x for x in its if is_part(x)]
            withs = [x for x in its if s in T.subterms(x, True)]
            if not mine:
                cx.put(None, "routed", f"{key}: {name}", b.loc, f"{label} not found in the loss")
                continue
            stray = [x for x in withs if x not in mine]
            lacking = [x for x in mine if not factor(x, s)]
            if not stray and not lacking:
                cx.ok("routed", f"{key}: {name}", b.loc, f"coefficient of {label}")
            else:
                cx.put(False if not lacking or all(s not in T.subterms(x, True) for x in lacking) else None, "routed", f"{key}: {name}", b.loc,
                       f"hyperparameter {name!r} weights something other than {label}" if stray else f"{label} is not weighted by hyperparameter {name!r}")


def factor(x, s):
    return x.op == "PROD" and s in x.args or x is s


def is_nuc(y):
    return len(y.args) > 1 and is_c(y.args[1], "nuc") or any(is_c(v, "nuc") for _, v in y.kw)


def is_l1(y):
    return y.data != "induced" and (len(y.args) > 1 and is_c(y.args[1], 1) or any(n in ("p", "ord") and is_c(v, 1) for n, v in y.kw))


def graph(cx):
    """test method and significance level go to graph estimation"""
    if not cx.has(N):
        return
    if cx.lookup(N + "._estimate_udg") is None:
        cx.und("routed", "graph estimation", None, "no such step")
        return
    box = {}

    def go(_):
        m = cx.call(N, seed=cx.p("seed", "int"), path=cx.p("path", "str"))
        hyper(cx, m, box)
        cx.eng.setattr(m, "dataset", cx.p("dataset", "ndarray", 2, nonempty=True))
        return cx.meth(m, "_estimate_udg")
    r = cx.run("graph estimation step", go)
    calls = []
    for n in nodes(r.tree if r else []):
        if n.kind == "call" and n.d.get("qual", "").endswith(".estimate_UDG"):
            calls.append(n)
    if not calls:
        cx.und("routed", "graph estimation", None, "no call of estimate_UDG")
        return
    hp = box["hp"]
    for n in calls[:1]:
        names = {k: r.term(v) for k, v in (n.d.get("args") or {}).items()}
        for h, pn in (("method", "method"), ("alpha", "significance_level")):
            if h not in hp:
                continue
            got = names.get(pn)
            cx.put(None if got is None else got is hp[h], "routed", f"graph estimation: {h}", n.d.get("loc"), f"{pn} of estimate_UDG is " + (f"hyperparameter {h!r}" if got is hp[h] else str(got)[:60]))


def nodes(tree):
    for x in tree:
        if isinstance(x, Node):
            yield x
            for k in x.kids:
                yield from nodes(k)


def declared(cx):
    """keys read anywhere in the class are declared ones"""
    box = {}

    def go(_):
        m = cx.call(N, seed=cx.p("seed", "int"), path=cx.p("path", "str"))
        hyper(cx, m, box)
    if cx.run("constructor", go) is None or not box.get("hp"):
        cx.und("declared", "constructor", None, "hyperparameters not found")
        return
    info = cx.lookup(N)
    mod = cx.eng.mods[N.rsplit(".", 1)[0]]
    cls = next((n for n in ast.walk(mod.tree) if isinstance(n, ast.ClassDef) and n.name == N.rsplit(".", 1)[1]), None)
    if cls is None:
        cx.und("declared", "class", None, "class body not found")
        return
    n = 0
    for x in ast.walk(cls):
        k = None
        if isinstance(x, ast.Subscript) and ishp(x.value) and isinstance(x.slice, ast.Constant) and isinstance(x.ctx, ast.Load):
            k = x.slice.value
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "pop", "setdefault") and ishp(x.func.value) and x.args and isinstance(x.args[0], ast.Constant):
            k = x.args[0].value
        if k is None:
            continue
        n += 1
        loc = (mod.path if hasattr(mod, "path") else "medil/models.py", x.lineno, N)
        cx.put(k in box["hp"], "declared", f"read of {k!r}", loc, "declared" if k in box["hp"] else f"hyperparameter {k!r} is read but not declared")


def ishp(v):
    return isinstance(v, ast.Attribute) and v.attr == "hyperparams"
