from .base import *
from .tools import *
from sa.values import *
import sa.terms as T
from .c41 import snap

ID, TITLE = "C45", "Fits and calls start from their own data, not from earlier ones"
RULE = ("History analysis by comparison of two abstract runs: (A) an operation on symbolic data, (B) the same operation on the same symbolic data after it was already carried out on other symbolic data "
        "(same object for estimators, same process for functions). Obligations, for every stored parameter, weight, loss, history and returned value of B: (1) its term contains no symbol of the earlier "
        "data; (2) its term is the one of A up to the names of loops and draws; (3) every file written by a fit is written under both; (4) every setting (hyperparameters, seed, path, verbosity, device) is after a fit what it was before. A structure the model has "
        "already learned is kept by design (C02), so Gaussian models are compared with their structure given.")
ASSUMES = ["the caller's generator advances between calls; its draws are new symbols of the same kind", "library functions keep no state between calls other than generators"]
TECHNIQUE = "abstract interpretation to expression terms + two-run (history) comparison"
_M, _I, _V, _X, _E, _G = ("medil/models.py", "medil/independence_testing.py", "medil/vae.py", "medil/ecc_algorithms.py", "medil/evaluate.py", "medil/graph.py")
G, D, N = "medil.models.GaussianMCM", "medil.models.DevMedil", "medil.models.NeuroCausalFactorAnalysis"
WITNESSES = [
    (_M, "        cov = np.cov(self.dataset, rowvar=False)\n\n        mask", "        if not hasattr(self, \"cov\"):\n            self.cov = np.cov(self.dataset, rowvar=False)\n        cov = self.cov\n\n        mask"),
    (_M, "        self.parameters.error_means = self.dataset.mean(0)", "        self.parameters.error_means = getattr(self.parameters, \"error_means\", 0) + self.dataset.mean(0)"),
    (_M, "        self.loss = {\n            \"elbo_train\": loss_recon[0],", "        self.loss = self.loss or {\n            \"elbo_train\": loss_recon[0],"),
    (_M, "        self.parameters.vae = model_recon\n", "        if self.parameters.vae is None:\n            self.parameters.vae = model_recon\n"),
    (_M, "        standardized = sc().fit_transform(dataset)\n", "        if not hasattr(self, \"scaler\"):\n            self.scaler = sc().fit(dataset)\n        standardized = self.scaler.transform(dataset)\n"),
    (_M, "        optimizer = torch.optim.AdamW(\n            model.parameters(), lr=self.hyperparams[\"lr\"]", "        self.hyperparams[\"lr\"] *= 0.9\n        optimizer = torch.optim.AdamW(\n            model.parameters(), lr=self.hyperparams[\"lr\"]"),
    (_M, "            train_elbo.append(train_lb)\n", "            self.hyperparams[\"lr\"] = scheduler.get_last_lr()[0]\n            train_elbo.append(train_lb)\n"),
    (_M, "        train_loader = self._data_loader(train_split)\n", "        self.hyperparams[\"batch_size\"] = min(self.hyperparams[\"batch_size\"], len(train_split))\n        train_loader = self._data_loader(train_split)\n"),
    (_M, "        torch.manual_seed(self.seed)\n", "        torch.manual_seed(self.seed)\n        self.seed += 1\n"),
    (_I, "def estimate_UDG(sample, method=\"dcov_fast\", significance_level=0.05):\n    samp_size, num_feats = sample.shape\n", "_SEEN = {}\n\n\ndef estimate_UDG(sample, method=\"dcov_fast\", significance_level=0.05):\n    samp_size, num_feats = _SEEN.setdefault(\"shape\", sample.shape)\n"),
]
FILES = {"save", "open", "dump"}
COMM = {"add", "mul", "eq", "ne", "band", "bor", "maximum", "minimum", "set", "bxor"}
NAMED = {"const", "param", "lib", "attr", "dim", "getattr", "sym", "func", "class", "optcfg"}


def sig(t, memo=None, open_=frozenset()):
    """structural signature: names of loops, draws and cells do not count"""
    memo = {} if memo is None else memo
    if t in memo and not open_:
        return memo[t]
    if t.op == "mu":
        if t.data in open_ or t.data not in T.MU:
            return hash("mu")
        m = T.MU[t.data]
        r = hash(("mu", sig(m["init"], memo, open_ | {t.data}), sig(m["next"], memo, open_ | {t.data})))
    elif t.op == "phi" and sig(t.args[1], memo, open_) == sig(t.args[2], memo, open_):
        r = sig(t.args[1], memo, open_)
    else:
        cs = [sig(a, memo, open_) for a in t.args]
        if t.op in COMM:
            cs.sort()
        d = t.data if isinstance(t.data, (str, bool, float)) or t.op in NAMED else None
        if t.op == "func" and isinstance(t.data, tuple):
            d = t.data[0]
        if isinstance(d, str) and t.op not in NAMED:
            d = d.rstrip("0123456789")
        r = hash((t.op, tuple(cs), tuple((k, sig(v, memo, open_)) for k, v in t.kw), repr(d) if d is not None else None))
    if not open_:
        memo[t] = r
    return r


def scenarios(cx):
    """(name, make(), operation(model, data), paths that may keep what was learned)"""
    rng = lambda: cx.p("rng", "generator")
    if cx.has(G):
        for given in ("biadj", "udg"):
            yield (f"GaussianMCM.fit ({given} given)", lambda _, g=given: cx.call(G, rng=rng(), **{g: cx.p(g, "ndarray", 2, nonempty=True)}),
                   lambda m, d: cx.meth(m, "fit", d))
    if cx.has(D):
        for meth in ("mle", "lse"):
            yield (f"DevMedil.fit ({meth})", lambda _: cx.call(D, rng=rng()),
                   lambda m, d, k=meth: cx.meth(m, "fit", d, method=ConstV(k), lambda_reg=cx.p("lam", "float", lo=0), mu_reg=cx.p("mu", "float", lo=0)))
    if cx.has(N):
        for split in (False, True):
            def nfit(m, d, split=split):
                kw = {"split_idcs": TupV([cx.p("tr", "ndarray", 1), cx.p("va", "ndarray", 1)])} if split else {}
                return cx.meth(m, "fit", d, **kw)
            yield (f"NCFA.fit ({'given' if split else 'drawn'} split)", lambda _: cx.call(N, seed=cx.p("seed", "int"), path=cx.p("path", "str"), verbose=cx.p("verbose", "bool")), nfit)
    P = lambda n, k="ndarray", nd=2: cx.p(n, k, nd, nonempty=True)
    I = "medil.independence_testing."
    fs = [(f"estimate_UDG({m})", I + "estimate_UDG", lambda q, d, m=m: cx.call(q, d, method=ConstV(m), significance_level=cx.p("alpha", "float", lo=0, hi=1)))
          for m in ("dcov_fast", "dcov_big", "xicor")]
    fs += [("dcov", I + "dcov", lambda q, d: cx.call(q, d)),
           ("recover_ug", "medil.evaluate.recover_ug", lambda q, d: cx.call(q, d)),
           ("sfd", "medil.evaluate.sfd", lambda q, d: cx.call(q, d, P("true_biadj"))),
           ("min_perm_squared_l2_dist", "medil.evaluate.min_perm_squared_l2_dist", lambda q, d: cx.call(q, d, P("true_W"))),
           ("min_perm_squared_l2_dist_abs", "medil.evaluate.min_perm_squared_l2_dist_abs", lambda q, d: cx.call(q, d, P("true_W"))),
           ("find_heuristic_1pc", "medil.ecc_algorithms.find_heuristic_1pc", lambda q, d: cx.call(q, d)),
           ("add_isolated_verts", "medil.ecc_algorithms.add_isolated_verts", lambda q, d: cx.call(q, d)),
           ("get_dag_from_biadj", "medil.visualize.get_dag_from_biadj", lambda q, d: cx.call(q, d)),
           ("mcm", "medil.sample.mcm", lambda q, d: cx.call(q, rng=rng(), biadj=d)),
           ("UndirectedDependenceGraph", "medil.graph.UndirectedDependenceGraph", graph)]
    for name, q, f in fs:
        f.cx = cx
        if cx.has(q):
            yield name, lambda _, q=q: q, f


def graph(q, d):
    cx = graph.cx
    g = cx.call(q, d)
    cx.meth(g, "make_aux")
    return g


def run(cx, name, make, op, earlier):
    box = {}

    def go(_):
        box.clear()
        m = make(_)
        box["before"] = snap(cx, m) if isinstance(m, ObjV) else {}
        if earlier:
            op(m, cx.p("earlier_data", "ndarray", 2, nonempty=True))
        box["at"] = cx.eng.seq
        box["old"] = set(cx.eng.st.heap)
        r = op(m, cx.p("data", "ndarray", 2, nonempty=True))
        box["state"] = snap(cx, m) if not isinstance(m, str) else snap(cx, r) if isinstance(r, (ObjV, TupV)) else {("result",): cx.eng.term(r)}
        box["nets"] = nets(cx, m) if isinstance(m, ObjV) else {}
        return r
    r = cx.run(f"{name}{' after an earlier call' if earlier else ''}", go)
    return (r, box) if r is not None and "state" in box else None


def check(cx):
    for name, make, op in scenarios(cx):
        a, b = run(cx, name, make, op, False), run(cx, name, make, op, True)
        if a is None or b is None:
            cx.und("history-free", name, None, "no result")
            continue
        compare(cx, name, a, b)
        settings(cx, name, a[1])
        files(cx, name, a, b)


def nets(cx, v, path=(), seen=None, out=None):
    """{path: network} below an object"""
    seen, out = set() if seen is None else seen, {} if out is None else out
    if isinstance(v, PhiV):
        for x in (v.a, v.b):
            nets(cx, x, path, seen, out)
    elif isinstance(v, ObjV) and v.cid not in seen and cx.eng.st.heap.get(v.cid) is not None:
        seen.add(v.cid)
        rec = cx.eng.st.heap[v.cid]
        if path and rec.cls.lookup("forward")[0] is not None:
            out.setdefault(".".join(path), []).append(v)
            return out
        for n, x in list(rec.fields.items()):
            nets(cx, x, path + (n,), seen, out)
    return out


def settings(cx, name, box):
    """what the estimator was configured with is the same after a fit"""
    for path, t in box["before"].items():
        if not (path[0] == "hyperparams" or path[0] in ("seed", "path", "verbose", "device", "one_pure_child")) or path not in box["state"]:
            continue
        now, key = box["state"][path], f"{name}: {'.'.join(map(str, path))}"
        v, why = True, ""
        for _, x in phi_leaves(now) if now is not t else ():
            y = x
            while y.op in ("float", "int", "astype", "bool", "tostr") and y.args:
                y = y.args[0]
            if y is t:
                continue
            odd = [z for z in opaque_in(x) if not (z.op == "mcall" and z.args and any(w.op.startswith("new:torch.optim") for w in subterms(z.args[0])))]
            v, why = (None if odd else False) if v is not False else v, f"a fit changes this setting to {T.show(x, 3)}"
        cx.put(v, "settings-kept", key, next((l for l in now.locs or () if l), None) if v is not True else None, why)


def early(x):
    return x.op == "param" and x.data == "earlier_data"


def compare(cx, name, a, b):
    sa_, sb = a[1]["state"], b[1]["state"]
    kept = sb.get(("biadj",))
    if kept is not None and kept.op == "phi" and kept.args[0].op == "eq" and any(T.is_c(z, 0) for z in kept.args[0].args) and any(z.op == "size" and z.args[0] is kept.args[2] for z in kept.args[0].args):
        sb = {p: T.subst(t, {kept: kept.args[2]}) for p, t in sb.items()}      # a learned structure has rows
    memo = {}
    for path, vs in b[1]["nets"].items():
        old = [v for v in vs if v.cid in b[1]["old"]]
        cx.put(not old, "new-network", f"{name}: {path}", None, "the network was built by an earlier fit" if old else "the network was built by this fit")
    for path, t in sorted(sb.items(), key=str):
        key = f"{name}: {'.'.join(map(str, path))}"
        loc = next((l for l in t.locs or () if l), None)
        x = next((z for z in subterms(t) if early(z)), None)
        if x is not None:
            cx.put(False, "history-free", key, loc, f"depends on the data of an earlier call: {T.show(t, 3)}")
        elif path not in sa_:
            cx.und("history-free", key, loc, "exists only after an earlier call")
        elif sa_[path] is t or sig(sa_[path], memo) == sig(t, memo):
            cx.ok("history-free", key, loc, "the same value with and without an earlier call")
        else:
            cx.put(None if opaque_in(t) or opaque_in(sa_[path]) else False, "history-free", key, loc, f"{T.show(t, 3)} after an earlier call, {T.show(sa_[path], 3)} without")
    for path in sa_:
        if path not in sb:
            cx.und("history-free", f"{name}: {'.'.join(map(str, path))}", None, "missing after an earlier call")


def files(cx, name, a, b):
    def written(r, at):
        out = {}
        for e in r.events:
            if e.kind == "open" and e.seq is not None and e.seq > at and not (T.is_const(e.d["mode"]) and not set(str(T.cval(e.d["mode"]))) & set("wax+")):
                out.setdefault(sig(e.d["path"]), e)
            if e.kind == "save" and e.seq is not None and e.seq > at:
                out.setdefault(sig(e.d["path"]), e)
        return out
    wa, wb = written(a[0], a[1]["at"]), written(b[0], b[1]["at"])
    for k, e in wa.items():
        cx.put(True if k in wb else None, "files", f"{name}: {T.show(e.d['path'], 3)}", e.loc, "written by every fit" if k in wb else "not seen after an earlier fit")
