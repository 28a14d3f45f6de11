from .base import *
from .tools import *
from . import neural
from sa.values import *

ID, TITLE = "C18", "Every layer of the autoencoder is registered"
RULE = ("Ownership/reachability analysis over the abstract object graph of the autoencoder built with symbolic sizes (including a symbolic number of hidden "
        "layers): from the model that is trained, children are followed only through torch's registration rules (module attributes, ModuleList/ModuleDict/"
        "Sequential, register_module/parameter/buffer); every layer entered, library layer applied and tensor attribute read in the forward pass must be in "
        "that set, no weight may be detached there, and the optimiser's parameter set must cover all of it.")
ASSUMES = ["torch.nn.Module registration protocol: plain lists, dicts and tuples of modules are not registered; plain tensor attributes are neither parameters nor buffers"]
V = "medil.vae.VariationalAutoencoder"
WITNESSES = [
    ("medil/vae.py", "        self.mean_linear_hidden = nn.ModuleDict(\n            {", "        self.mean_linear_hidden = dict(\n            {"),
    ("medil/vae.py", "        self.cov_linear_hidden = nn.ModuleDict(\n            {", "        self.cov_linear_hidden = dict(\n            {"),
    ("medil/vae.py", 'self.register_buffer("mask", mask)', "self.mask = mask"),
    ("medil/vae.py", 'self.register_buffer("mask", mask)', 'self.register_buffer("mask", mask, persistent=False)'),
    ("medil/vae.py", "self.weight * self.mask, self.bias", "self.weight.detach() * self.mask, self.bias"),
    ("medil/vae.py", "            self.bias = Parameter(torch.empty(out_features, **factory_kwargs))", "            self.bias = torch.empty(out_features, **factory_kwargs)"),
    ("medil/vae.py", "torch.empty((out_features, in_features), **factory_kwargs)\n", "torch.empty((out_features, in_features), **factory_kwargs), False\n"),
    ("medil/vae.py", "            self.bias = Parameter(torch.empty(out_features, **factory_kwargs))",
     "            self.bias = Parameter(torch.empty(out_features, **factory_kwargs))\n            self.bias.requires_grad = False"),
    ("medil/models.py", "            model.parameters(), lr", "            model.decoder.parameters(), lr"),
    ("medil/vae.py", "torch.empty((out_features, in_features), **factory_kwargs)\n", "torch.empty((out_features, in_features), **factory_kwargs), False\n"),
    ("medil/vae.py", "            self.bias = Parameter(torch.empty(out_features, **factory_kwargs))",
     "            self.bias = Parameter(torch.empty(out_features, **factory_kwargs))\n            self.bias.requires_grad = False"),
    ("medil/models.py", "            model.parameters(), lr", "            [p for p in model.parameters() if p.ndim > 1], lr"),
    ("medil/vae.py", "self.fc_logvar = nn.Linear(\n            in_features=self.inter_dim, out_features=self.latent_dim\n        )",
     'self.__dict__["fc_logvar"] = nn.Linear(\n            in_features=self.inter_dim, out_features=self.latent_dim\n        )'),
    ("medil/vae.py", "self.enc2 = nn.Linear(in_features=self.inter_dim, out_features=self.inter_dim)",
     'object.__setattr__(self, "enc2", nn.Linear(in_features=self.inter_dim, out_features=self.inter_dim))'),
    ("medil/vae.py", "self.fc_logvar = nn.Linear(\n            in_features=self.inter_dim, out_features=self.latent_dim\n        )",
     "self.heads = [nn.Linear(\n            in_features=self.inter_dim, out_features=self.latent_dim\n        )]\n        self.fc_logvar = lambda t: self.heads[0](t)"),
]
CONTAINERS = ("ModuleList", "Sequential", "ModuleDict", "ParameterList", "ParameterDict")


class Graph:
    """what is registered below a module"""

    def __init__(self, e, st):
        self.e, self.st = e, st
        self.buffers = {(q, n) for q, n in e.buffers}

    def alts(self, v):
        if isinstance(v, PhiV):
            return self.alts(v.a) + self.alts(v.b)
        return [v]

    def ismod(self, v):
        if isinstance(v, ObjV):
            return v.cid in self.st.heap and self.st.heap[v.cid].cls.is_module()
        if isinstance(v, Ref):
            return v.cid in self.e.libmods or v.cid in self.e.parameters
        return isinstance(v, (ListV, DictV)) and self.kind(v) in CONTAINERS

    def kind(self, v):
        r = self.st.heap.get(v.cid)
        return getattr(r, "kind", None)

    def members(self, v):
        r = self.st.heap.get(v.cid) if not isinstance(v, TupV) else None
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(r, LObj):
            return [x for x, _ in r.items]
        if isinstance(r, DObj):
            return list(r.entries.values()) + [x for _, x, _ in r.extra]
        return []

    def closure(self, root):
        out, todo = set(), [root]
        while todo:
            v = todo.pop()
            for v in self.alts(v):
                if not hasattr(v, "cid") or v.cid in out:
                    continue
                if isinstance(v, ObjV) and self.ismod(v):
                    out.add(v.cid)
                    rec = self.st.heap[v.cid]
                    todo += [x for n, x in rec.fields.items() if (v.cid, n) not in self.e.rawattrs for x in self.alts(x) if self.ismod(x)]
                    todo += [x for _, x in self.e.dynreg.get(v.cid, []) + self.e.dynattr.get(v.cid, [])]
                elif isinstance(v, (ListV, DictV)) and self.kind(v) in CONTAINERS:
                    out.add(v.cid)
                    todo += self.members(v)
                elif isinstance(v, Ref) and self.ismod(v):
                    out.add(v.cid)
        return out


def params_of(e, st, t, g):
    """covered weight holders of an optimiser's parameter argument: [(cids, filter condition or None)], what was not understood"""
    cov, unk = [], []

    def go(x, cond=None):
        if x.op == "modparams":
            o = x.args[0]
            if o.op == "obj":
                cov.append((frozenset(g.closure(ObjV(o.data[1]))), cond))
            else:
                unk.append(x)
        elif x.op == "many" and x in e.filterconds:
            for c in e.filterconds[x]:
                cond = c if cond is None else T.land(cond, c)
            go(x.args[0], cond)
        elif x.op in ("elem", "many", "list", "tuple", "gen", "set", "concat", "chain", "kv", "asarray", "dict", "iter", "sorted", "add", "reversed"):
            for a in x.args:
                if not T.is_const(a):
                    go(a, cond)
        elif x.op == "mcall" and x.data in ("chain", "from_iterable"):
            for a in x.args[1:]:
                go(a, cond)
        elif x.op == "filter":
            go(x.args[1], T.land(cond, x.args[0]) if cond is not None else x.args[0])
        elif x.op == "getitem":
            go(x.args[0], cond)
        else:
            unk.append(x)
    go(t)
    return cov, unk


def total(conds):
    """do the filters of the parameter groups cover every parameter together?"""
    d = T.FALSE
    for c in conds:
        d = T.lor(d, c)
    return d is T.TRUE


def onlygrad(e, c):
    """the filter only asks whether the parameter is trainable"""
    return any(x.op == "attr" and x.data == "requires_grad" for x in T.subterms(c))


def check(cx):
    if cx.has(V):
        box = {}

        def build(_):
            m = box["m"] = cx.call(V, cx.p("num_vae_latent", "int", lo=1), cx.p("num_meas", "int", lo=1), cx.p("num_hidden_layers", "int", lo=0),
                                   cx.p("width_per_meas", "int", lo=1))
            return cx.call(m, cx.p("x", "tensor", 2, nonempty=True))
        r = cx.run("autoencoder of symbolic size", build)
        if r is None or r.st is None or not isinstance(box.get("m"), ObjV):
            cx.und("registered", "autoencoder", None, "not analysed")
        else:
            forward(cx, r, box["m"], r.st)
    for nf in neural.fits(cx):
        optimisers(cx, nf)


def forward(cx, r, root, st):
    g = Graph(cx.eng, st)
    reg = g.closure(root)
    seen = set()
    lib = cx.eng.lib
    for e in r.ev("forward", "apply", "attr-read", "detach", "module-to"):
        infw = any(q.endswith(".forward") for q, _ in e.stack)
        if e.kind == "forward":
            if e.d["cid"] == root.cid:
                continue
            key = f"layer {e.d['cls'].split('.')[-1]} in {short(e)}"
            cx.put(e.d["cid"] in reg, "layer-registered", f"{key}", e.loc, "sub-layer used in forward" + ("" if e.d["cid"] in reg else " is not reachable through registration"))
        elif e.kind == "apply" and infw:
            f = e.d["func"]
            if f.op.startswith("new:torch.nn."):
                good = e.d["cid"] in reg
                cx.put(good, "layer-registered", f"{f.op[4:]} in {short(e)}", e.loc, "library layer used in forward" + ("" if good else " is not reachable through registration"))
            elif f.op in ("opaque", "getattr"):
                cx.und("layer-registered", f"call in {short(e)}", e.loc, "callee unknown")
        elif e.kind == "attr-read":
            for v in g.alts(e.d["v"]):
                attr(cx, e, v, g, reg, lib)
        elif e.kind == "detach" and infw:
            ps = {o for o in set(e.d["origins"]) | {e.d["cid"]} if o in cx.eng.parameters}
            if ps:
                cx.bad("weight-tracked", f"detach in {short(e)}", e.loc, "a weight is detached in the forward pass, so the optimiser cannot train it")
        elif e.kind == "module-to" and e.d["how"] == "requires_grad_":
            off = any(is_c(t, False) for t in e.d["args"])
            cx.put(not off if (off or not e.d["args"] or all(is_c(t, True) for t in e.d["args"])) else None, "weight-tracked", f"requires_grad_ {e.d['cls']}", e.loc, "gradient switched off")


def short(e):
    return e.stack[-1][0].replace("medil.vae.", "") if e.stack else "?"


def attr(cx, e, v, g, reg, lib):
    name, cls = e.d["name"], e.d["cls"]
    key = f"{cls.split('.')[-1]}.{name}"
    if isinstance(v, (ListV, DictV, TupV)) and not g.ismod(v):
        inner, todo, lost = [], [v], []
        seen = set()
        while todo:
            x = todo.pop()
            for y in g.alts(x):
                if g.ismod(y):
                    inner.append(y)
                    if y.cid not in reg:
                        lost.append(y)
                elif isinstance(y, (ListV, DictV, TupV)) and id(y) not in seen:
                    seen.add(id(y))
                    todo += g.members(y)
        if inner:
            cx.put(not lost, "layer-registered", key, e.loc, "layers kept in a plain container" + (" are not registered" if lost else ", registered elsewhere"))
        return
    if isinstance(v, Ref) and v.cid not in g.e.libmods and v.cid not in g.e.parameters:
        t = g.e.content(v.cid, g.st) if v.cid in g.st.heap else None
        if t is None:
            return
        if (cls, name) in g.buffers:
            cx.ok("tensor-registered", key, e.loc, "buffer")
            return
        if is_tensor(t, lib):
            cx.bad("tensor-registered", key, e.loc, "tensor attribute used in forward is neither a parameter nor a buffer: not trained, moved or saved with the model")
    elif isinstance(v, Ref) and v.cid in g.e.parameters:
        cx.put(v.cid in reg, "tensor-registered", key, e.loc, "weight used in forward")


def is_tensor(t, lib):
    if t.op in ("full", "blockdiag", "eye", "ofshape", "array", "draw"):
        return True
    n = lib.ndim(t)
    return n is not None and n >= 1


def optimisers(cx, nf):
    r, e, st = nf.r, cx.eng, nf.r.st
    g = Graph(e, st)
    key = nf.key
    for c in sorted(nf.roots):
        need = {x for x in g.closure(ObjV(c)) if x in e.parameters or x in e.libmods}
        cov, unk, where = [], [], None
        for o in nf.optims.values():
            a, b = params_of(e, st, o.d["params"], g)
            cov += a
            unk += b
            where = o.loc
        if not nf.optims:
            cx.und("optimiser-covers-model", key, None, "no optimiser found")
            continue
        missing, filtered = set(), []
        for x in need:
            conds = [c for ids, c in cov if x in ids]
            if not conds:
                missing.add(x)
            elif None not in conds and not any(onlygrad(e, c) for c in conds) and not total(conds):
                filtered.append(conds)
        if missing or filtered:
            cx.put(None if unk or any(k.op == "func" for c in filtered for k in c) or filtered and all(len(set(c)) > 1 for c in filtered) else False, "optimiser-covers-model", key, where,
                   f"{len(missing)} of {len(need)} weight holders of the trained model are not given to the optimiser" if missing else "some weights are filtered out of the optimiser's parameters")
        else:
            cx.put(None if unk else True, "optimiser-covers-model", key, where, f"all {len(need)} weight holders of the trained model")
    for ev in r.ev("register-buffer"):
        p = ev.d["persistent"]
        cx.put(True if is_c(p, True) else False if is_c(p, False) else None, "buffer-saved", f"{key}: buffer {ev.d['name']}", ev.loc, "buffer is part of the saved state")
    for ev in r.ev("setattr"):
        if ev.d.get("name") == "requires_grad" and is_c(ev.d.get("value"), False):
            cx.bad("weight-tracked", f"{key}: requires_grad", ev.loc, "a weight is frozen")
    def weight(ev):
        t = ev.d["target"]
        return ev.d["cid"] in e.parameters or bool(set(ev.d["origins"]) & e.parameters) or any(y.op == "modparams" for y in T.subterms(t))
    again = any(ev.kind == "module-to" and ev.d["how"] == "requires_grad_" and not any(is_c(x, False) for x in ev.d["args"]) or ev.d.get("value") is not None and is_c(ev.d["value"], True)
                for ev in r.ev("param-grad", "setattr-opaque", "module-to") if ev.kind == "module-to" or ev.kind == "param-grad" or ev.d["name"] == "requires_grad")
    for ev in r.ev("param-grad", "setattr-opaque", "module-to"):
        if ev.kind == "module-to":
            if ev.d["how"] != "requires_grad_":
                continue
            v, what = ev.d["args"][0] if ev.d["args"] else T.TRUE, f"the weights of {ev.d['cls'].split('.')[-1]}"
        elif (ev.kind == "param-grad" or ev.d["name"] == "requires_grad") and weight(ev):
            v, what = ev.d["value"], "a weight"
        else:
            continue
        cond = again or any(c.op != "inloop" and not any(y.op == "modparams" for y in T.subterms(c)) for c in ev.pc)
        cx.put(True if is_c(v, True) else False if is_c(v, False) and not cond else None, "weight-tracked", f"{key}: requires_grad in {short(ev)}", ev.loc,
               "trained" if is_c(v, True) else f"{what} frozen: the optimiser cannot train it")
