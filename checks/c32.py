from .base import *
from .tools import *
from sa.values import *
from sa import libnames
from sa.names import Package
from .api import Api

import ast

ID, TITLE = "C32", "No public operation fails for want of a name, attribute or argument"
RULE = ("(a) Every module of the package, syntactically: each name load resolves in an enclosing scope, each internal import and module attribute is defined, each attribute read from the object "
        "itself is set somewhere in its class family, each statically resolvable internal call fits the signature. (b) Every path of every public operation, by abstract interpretation: no unbound or "
        "undefined name, missing attribute, call with unfitting arguments, call of a non-callable, missing library attribute, attribute an optimisation result, generator, optimizer, scheduler or module cannot have, or array, list, set or dictionary used as a key.")
ASSUMES = ["scenarios fit before they sample, and hand over arguments of the documented kinds", "the installed library versions are the ones the package runs with"]
TECHNIQUE = "scope, attribute and signature resolution over the syntax trees; typestate of bindings and attributes along abstract paths"
_M, _E, _G, _V, _S, _I, _A, _X = ("medil/models.py", "medil/ecc_algorithms.py", "medil/graph.py", "medil/visualize.py", "medil/sample.py",
                                  "medil/independence_testing.py", "medil/vae.py", "medil/evaluate.py")
WITNESSES = [
    ("medil/graph.py", "        self.max_num_verts = udg.max_num_verts\n", ""),
    (_V, "    adj_mat = recover_ug(incidence_mat)", "    adj_mat = recover_graph(incidence_mat)"),
    (_V, "import pandas as pd\n", ""),
    (_V, "from .evaluate import recover_ug", "from .evaluate import recover_graph as recover_ug"),
    (_M, "            warnings.warn(f\"Optimization failed", "            self.warn(f\"Optimization failed"),
    (_M, "    def _estimate_udg(self):\n        \"\"\"Constraint-based structure learning.\"\"\"\n        samp_size", "    def _estimate_graph(self):\n        samp_size"),
    (_M, "        if self.udg.size == 0:\n            self._estimate_udg()", "        if self.udg.size == 0:\n            self._estimate_udg(self.dataset)"),
    (_M, "from datetime import datetime\n", ""),
    (_M, "        self.verbose = verbose\n", ""),
    (_M, "        samp_size = len(self.dataset)\n", "        if len(self.udg):\n            samp_size = len(self.dataset)\n"),
    (_M, "        self.parameters.error_means = self.dataset.mean(0)", "        self.parameters.error_means = self.data.mean(0)"),
    (_G, "                if not hasattr(self, \"reduced_away\"):\n                    self.reduced_away = np.zeros_like", "                if not hasattr(self, \"reduced_away\"):\n                    self.reduced = np.zeros_like"),
    (_G, "            self.cover_edges()\n            self.k_num_cliques -= 1", "            self.cover_edges()\n            self.k_num -= 1"),
    (_E, "    chosen_nbrhood = branch_graph.choose_nbrhood()", "    chosen_nbrhood = branch_graph.choose_nbrhood(graph)"),
    (_E, "    branch_graph.reduzieren(k_num_cliques)", "    branch_graph.reduzieren()"),
    (_E, "    iteration = iteration + 1\n    branch_graph = graph", "    depth = iteration + 1\n    del iteration\n    branch_graph = graph"),
    (_M, "np.tril_indices_from(inner_numerator)", "np.tril_indices_of(inner_numerator)"),
    (_G, "score.argmin()", "score.argminimum()"),
    (_A, "torch.relu", "torch.reluu"),
    (_M, "        if not result.success:", "        if not result.succes:"),
    (_M, "self.convergence_message_lse = result.message", "self.convergence_message_lse = result.mesage"),
    (_M, "            self.rng.standard_normal((num_latent, num_meas))\n", "            self.rng.std_normal((num_latent, num_meas))\n"),
    (_M, "                optimizer.zero_grad()", "                optimizer.zero_grads()"),
]

EVENTS = {"undefined-name": "name", "unbound": "name", "import-missing": "import", "lib-attr-missing": "import", "attr-missing": "attribute",
          "call-arity": "call", "not-callable": "call", "array-attr": "attribute"}

OBJECT = {"optres": "an optimisation result", "generator": "a numpy generator", "optimizer": "an optimizer", "scheduler": "a scheduler", "loader": "a data loader",
          "module": "a module", "list": "a list", "string": "a string"}


def check(cx):
    static(cx)
    library(cx)
    paths(cx)


def where(cx, mod, line, qual):
    m = cx.eng.mods[mod]
    return (m.path, line, qual)


def static(cx):
    pk = Package({n: m.tree for n, m in cx.eng.mods.items()}, cx.eng.package)
    for rule, qual, name, line, mod, msg in pk.issues:
        cx.bad(rule, f"{qual}|{name}", where(cx, mod, line, qual), msg)
    bad = {(r, m) for r, _, _, _, m, _ in pk.issues}
    for m in pk.trees:
        for r in ("name", "import", "attribute", "call"):
            if (r, m) not in bad:
                cx.ok(r, f"{m}: all", None, f"all {r} uses resolvable in {m} resolve")
    cx.counts = pk.counts


def library(cx):
    """names taken from libraries whose name list is closed"""
    for n, m in cx.eng.mods.items():
        alias, froms = {}, []
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom) and not s.level and s.module:
                for a in s.names:
                    if a.name != "*":
                        froms.append((s, f"{s.module}.{a.name}"))
        rebound = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        rebound |= {a.arg for x in ast.walk(m.tree) if isinstance(x, ast.arguments) for a in x.args + x.kwonlyargs}
        guarded = {id(w) for t in ast.walk(m.tree) if isinstance(t, ast.Try) for s in t.body for w in ast.walk(s)}
        guarded |= {id(w) for t in ast.walk(m.tree) if isinstance(t, (ast.If, ast.IfExp)) and "hasattr" in ast.dump(t.test) for w in ast.walk(t)}
        miss = [(s, d) for s, d in froms if id(s) not in guarded and libnames.missing(d)]
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and id(x) not in guarded:
                d = dotted(x)
                if d and d[0] in alias and d[0] not in rebound:
                    full = ".".join([alias[d[0]]] + d[1:])
                    if libnames.missing(full):
                        miss.append((x, full))
        for s, d in miss:
            q = enclosing(m.tree, s, n)
            cx.bad("library", f"{q}|{d}", where(cx, n, s.lineno, q), f"the installed library has no '{d}'")
        if not miss:
            cx.ok("library", f"{n}: all", None, "all library attributes that can be checked exist")


def dotted(x):
    out = []
    while isinstance(x, ast.Attribute):
        out.append(x.attr)
        x = x.value
    return [x.id] + out[::-1] if isinstance(x, ast.Name) else None


def enclosing(tree, node, mod):
    best = mod

    def go(n, q):
        nonlocal best
        for c in ast.iter_child_nodes(n):
            if c is node:
                best = q
                return True
            q2 = q + "." + c.name if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) else q
            if go(c, q2):
                return True
        return False
    go(tree, mod)
    return best


# ---- along paths -------------------------------------------------------------------------------

def paths(cx):
    seen = {}

    def note(verdict, rule, key, loc, msg, name):
        k = (rule, key)
        if k in seen and (seen[k][0] is False or verdict is not False):
            return
        seen[k] = (verdict, loc, f"{msg} (in {name})")

    for e in walk_all(cx.eng.modev):
        issue(cx, e, "import of the package", note)
    n = 0
    for name, r, _ in Api(cx).runs():
        n += 1
        before = len(seen)
        for e in r.events:
            issue(cx, e, name, note)
        if len(seen) == before:
            cx.ok("paths", name, None, "no unbound name, missing attribute, unfitting call or unhashable key on any path")
    for name, fn in extra(cx):
        r = cx.run(name, fn)
        if r is None:
            continue
        before = len(seen)
        for e in r.events:
            issue(cx, e, name, note)
        if len(seen) == before:
            cx.ok("paths", name, None, "no unbound name, missing attribute, unfitting call or unhashable key on any path")
    for (rule, key), (v, loc, msg) in seen.items():
        cx.put(v, rule, key, loc, msg)


def extra(cx):
    """operations whose mode arguments are left unknown, and members the other scenarios do not reach"""
    from .api import NCFA, GAUSS, DEV
    p, c, e = cx.p, cx.call, cx.eng
    d = lambda: p("dataset", "array", nd=2)

    def dev(_):
        m = c(DEV)
        cx.meth(m, "fit", d(), method=p("method", "str"))
        return cx.meth(m, "sample", p("size", "int", lo=1), method=p("method", "str"))

    def ncfa(_):
        return cx.meth(c(NCFA, path=p("path", "str"), verbose=p("verbose", "bool")), "fit", d())

    def reducible(_):
        """everything a reducible copy inherits or defines, each from a fresh copy"""
        g = c("medil.graph.UndirectedDependenceGraph", p("adj_matrix", "ndarray", 2))
        for name, args in (("convert_to_nde", [p("name", "str")]), ("add_edges", [p("edges", "ndarray", 2)]), ("rm_edges", [p("edges", "ndarray", 2)]),
                           ("make_aux", []), ("reset", []), ("reducible_copy", []), ("n_choose_2", [p("n", "int", lo=0)])):
            if cx.lookup("medil.graph.UndirectedDependenceGraph." + name) is not None or name == "reset" and cx.lookup("medil.graph.ReducibleUndDepGraph.reset") is not None:
                cx.meth(cx.meth(g, "reducible_copy"), name, *args)
        return g
    out = [("estimate_UDG, any method", lambda _: c("medil.independence_testing.estimate_UDG", d(), method=p("method", "str"),
                                                   significance_level=p("alpha", "float", lo=0, hi=1))),
           ("DevMedil.fit, sample, any method", dev), ("NCFA.fit, structure learned", ncfa),
           ("Parameters, any kind", lambda _: c("medil.models.Parameters", p("parameterization", "str"))),
           ("str(Parameters)", lambda _: cx.meth(c("medil.models.Parameters", ConstV("Gaussian")), "__str__")),
           ("sample.biadj, any kind", lambda _: c("medil.sample.biadj", p("num_meas", "int", lo=2), p("density", "float"),
                                                   one_pure_child=p("one_pure_child", "bool"), rng=p("rng", "generator"))),
           ("sample.mcm, any kind", lambda _: c("medil.sample.mcm", num_meas=p("num_meas", "int", lo=2), one_pure_child=p("one_pure_child", "bool"))),
           ("show_obs_dcor_mat, defaults", lambda _: c("medil.visualize.show_obs_dcor_mat", p("mat", "array", nd=2))),
           ("reducible copy: inherited operations", reducible),
           ("SparseLinear.extra_repr", lambda _: cx.meth(c("medil.vae.SparseLinear", p("fi", "int", lo=1), p("fo", "int", lo=1),
                                                           p("mask", "tensor", nd=2)), "extra_repr"))]
    need = {"estimate_UDG, any method": "medil.independence_testing.estimate_UDG", "sample.biadj, any kind": "medil.sample.biadj",
            "sample.mcm, any kind": "medil.sample.mcm", "show_obs_dcor_mat, defaults": "medil.visualize.show_obs_dcor_mat"}
    for n, fn in out:
        if n not in need or cx.lookup(need[n]) is not None:
            yield n, fn


def walk_all(x):
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from walk_all(y)
    elif isinstance(x, Node):
        for k in x.kids:
            yield from walk_all(k)
    elif isinstance(x, Ev):
        yield x


def guarded(e):
    """the event happens inside a try block that handles its exception"""
    return any(getattr(c, "op", None) == "try" for c in (e.ctx or ()))


def fn_of(e):
    return e.loc[2] if e.loc and len(e.loc) > 2 else "?"


def issue(cx, e, name, note):
    k = e.kind
    if k in EVENTS:
        rule = EVENTS[k]
        what = e.d.get("name") or e.d.get("func") or e.d.get("cls") or "?"
        msg = {"undefined-name": "is not defined", "unbound": "is read before anything binds it", "import-missing": "does not exist",
               "lib-attr-missing": "does not exist in the library", "attr-missing": f"is not an attribute of {e.d.get('cls')}",
               "call-arity": f"is called with {e.d.get('problem')}", "not-callable": "is called but is not callable",
               "array-attr": "is no attribute of " + OBJECT.get(e.d.get("of"), "an array")}[k]
        sure = not guarded(e)
        if k == "not-callable" and not str(what).startswith("medil"):
            sure = False
        note(False if sure else None, rule, f"{fn_of(e)}|{what}", e.loc, f"'{what}' {msg}", name)
    elif k in ("maybe-unbound", "attr-maybe-missing"):
        if e.d.get("loopish") or guarded(e):
            return
        conds = list(e.d["conds"])
        sat = satisfiable(list(e.pc) + conds)
        if sat:
            note(False, "name" if k == "maybe-unbound" else "attribute", f"{fn_of(e)}|{e.d['name']}", e.loc,
                 f"'{e.d['name']}' is not set when " + " and ".join(T.show(c, 2) for c in conds), name)
    elif k == "hash":
        v, t = e.d.get("v"), e.d.get("value")
        if isinstance(v, (ListV, DictV)):
            note(None if guarded(e) else False, "key", f"{fn_of(e)}|{e.loc[1] if e.loc else 0}", e.loc, "a list, set or dictionary is used as a key", name)
        elif t is not None:
            h = unhashable(cx, t)
            if h:
                note(None if guarded(e) else False, "key", f"{fn_of(e)}|array", e.loc, f"an array is used as a key: {T.show(t, 2)}", name)


def unhashable(cx, t):
    if t.op in ("list", "set", "dict"):
        return True
    if t.op == "tuple":
        return any(unhashable(cx, a) for a in t.args)
    nd = cx.eng.lib.ndim(t)
    return nd is not None and nd >= 1


LOOPY = ("ran", "brk", "exc", "handler", "mu", "inloop")


def satisfiable(conds):
    """the conjunction is certainly satisfiable (True), otherwise False: only simple independent conditions on the arguments
    are decided"""
    flat = []
    for c in conds:
        todo = [c]
        while todo:
            x = todo.pop()
            if x.op in ("and", "band"):
                todo += list(x.args)
            elif x not in flat:
                flat.append(x)
    groups = {}
    for x in flat:
        if any(s.op in LOOPY for s in subterms(x)) or opaque_in(x):
            if x.op in ("inloop",):
                continue
            return False
        neg = x.op == "not"
        y = x.args[0] if neg else x
        ps = {s.data for s in subterms(y) if s.op == "param"}
        if len(ps) != 1:
            return False
        groups.setdefault(ps.pop(), []).append((y, neg))
    for p, gs in groups.items():
        if len(gs) == 1:
            continue
        if all((neg and y.op == "eq" or not neg and y.op == "ne") and any(T.is_const(a) for a in y.args) and any(a.op == "param" for a in y.args)
               for y, neg in gs):
            continue
        if not any(all(holds(y, w) is (not neg) for y, neg in gs) for w in ("empty", "some")):
            return False
    return True


def holds(y, world):
    """truth of a condition on an array argument which is empty, or which is 3 x 4"""
    m = {}
    for s in subterms(y):
        if s.args and s.args[0].op == "param":
            if s.op == "dim":
                m[s] = T.const(0 if world == "empty" else 3 + int(s.data or 0))
            elif s.op in ("size", "len"):
                m[s] = T.const(0 if world == "empty" else 12 if s.op == "size" else 3)
    if not m:
        return None
    z = T.subst(y, m)
    return bool(T.cval(z)) if T.is_const(z) else None
