from .base import *
from .tools import *
from sa.values import *
from .c41 import snap
import ast
import collections
import sa.terms as T

ID, TITLE = "C43", "Verbosity only changes what is printed"
RULE = ("Non-interference by taint analysis: the verbosity argument is a symbolic value v. Obligations on every path: (1) neither the result nor any attribute of the object worked on (other than the "
        "copy of v itself) depends on v, as data or through a branch condition, loop exit or filter; (2) nothing with an effect (stored or changed values, random draws, files, training steps, raised errors, early returns) happens under "
        "a condition on v; only printing and logging to the screen may; (3) the recorded arguments of effects do not contain v.  Analysed: exact cover search, graph construction, reduction rules and export, and the whole neural fit.")
ASSUMES = ["print does not fail"]
TECHNIQUE = "abstract interpretation to expression terms; taint (non-interference) over values, path conditions and effects"
_E, _G, _M = "medil/ecc_algorithms.py", "medil/graph.py", "medil/models.py"
COVER, UDG, N = "medil.ecc_algorithms.find_clique_min_cover", "medil.graph.UndirectedDependenceGraph", "medil.models.NeuroCausalFactorAnalysis"
WITNESSES = [
    (_E, "        num_cliques += 1\n\n    return add", "        if verbose:\n            num_cliques += 1\n\n    return add"),
    (_E, "    num_cliques = 1\n    the_cover = None\n", "    num_cliques = 1 if verbose else 2\n    the_cover = None\n"),
    (_E, "    num_cliques = 1\n    the_cover = None\n", "    num_cliques = 1\n    the_cover = None\n    if verbose:\n        graph.adj_matrix[0] = 0\n"),
    (_G, "            if self.verbose:\n                print(\"\\t\\t\\tapplying Rule 1...\")\n", "            if self.verbose:\n                print(\"\\t\\t\\tapplying Rule 1...\")\n                self.reducing = True\n"),
    (_G, "            if self.verbose:\n                print(\"\\t\\t\\tapplying Rule 1...\")\n", "            if not self.verbose:\n                isolated_verts = isolated_verts[:1]\n"),
    (_G, "            if self.k_num_cliques < 0:\n                return", "            if self.k_num_cliques < 0 and not self.verbose:\n                return"),
    (_G, "        if self.verbose:\n            print(\"\\t\\treducing:\")\n", "        if self.verbose:\n            print(\"\\t\\treducing:\")\n            k_num_cliques += 1\n"),
    (_M, "        if self.verbose:\n            print(time", "        if self.verbose:\n            self.seed += 1\n            print(time"),
    (_M, "        with open(os.path.join(self.path, \"training.log\"), \"a\") as log_file:\n            log_file.write(time_stamped_entry + \"\\n\")\n", "        if not self.verbose:\n            return\n        with open(os.path.join(self.path, \"training.log\"), \"a\") as log_file:\n            log_file.write(time_stamped_entry + \"\\n\")\n"),
    (_M, "        torch.save(model_recon, os", "        if self.verbose:\n            torch.save(model_recon, os"),
    (_M, "        torch.manual_seed(self.seed)\n", "        if not self.verbose:\n            torch.manual_seed(self.seed)\n"),
]
HARD = ("draw", "write", "raise", "seed", "mode", "save", "mkdir", "optimizer", "backward", "step", "reccall", "module-to", "register-buffer", "open")
SOFT = ("forward", "ctor", "delattr", "yield")


def scenarios(cx):
    v = lambda: cx.p("verbose", "bool")
    if cx.has(COVER):
        yield "find_clique_min_cover", lambda _: cx.call(COVER, cx.p("graph", "ndarray", 2, nonempty=True), v())
    if cx.has(UDG):
        def make(_):
            g = cx.call(UDG, cx.p("adj_matrix", "ndarray", 2, nonempty=True), v())
            cx.meth(g, "add_edges", cx.p("edges", "ndarray", 2))
            cx.meth(g, "make_aux")
            cx.meth(g, "rm_edges", cx.p("edges", "ndarray", 2))
            cx.meth(g, "convert_to_nde", cx.p("name", "str"))
            return g
        yield "UndirectedDependenceGraph", make

        def red(_):
            g = cx.call(UDG, cx.p("adj_matrix", "ndarray", 2, nonempty=True), v())
            cx.meth(g, "make_aux")
            r = cx.meth(g, "reducible_copy")
            cx.eng.setattr(r, "the_cover", cx.p("the_cover", "ndarray", 2))
            cx.meth(r, "reduzieren", cx.p("k", "int"))
            cx.meth(r, "choose_nbrhood")
            return r
        yield "ReducibleUndDepGraph: reduce", red

        def rules(_):
            g = cx.call(UDG, cx.p("adj_matrix", "ndarray", 2, nonempty=True), v())
            cx.meth(g, "make_aux")
            r = cx.meth(g, "reducible_copy")
            cx.eng.setattr(r, "the_cover", cx.p("the_cover", "ndarray", 2))
            cx.eng.setattr(r, "k_num_cliques", cx.p("k", "int"))
            cx.meth(r, "cover_edges")
            for n in ("rule_1", "rule_2", "rule_3"):
                cx.meth(r, n)
            return cx.meth(r, "reconstruct_cover", cx.p("the_cover", "ndarray", 2))
        yield "ReducibleUndDepGraph: rules", rules
    if cx.has(N):
        def fit(_):
            m = cx.call(N, seed=cx.p("seed", "int"), path=cx.p("path", "str"), verbose=v())
            return cx.meth(m, "fit", cx.p("dataset", "ndarray", 2, nonempty=True))
        yield "NeuroCausalFactorAnalysis.fit", fit


def reaches(t, v):
    """t depends on v (progress bars show or hide themselves only)"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        if x is v:
            return True
        todo.extend(x.args)
        todo.extend(k for n, k in x.kw if not (n in ("disable", "verbose", "disp") and x.op.startswith("call:")))
        if x.op == "mu":
            m = T.MU[x.data]
            todo += [m["init"], m["next"]]
    return False


def check(cx):
    loads = collections.Counter(x.attr for m in cx.eng.mods.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load))
    for key, go in scenarios(cx):
        box = {}

        def run(_):
            box["v"] = cx.eng.term(cx.p("verbose", "bool"))
            x = go(_)
            box["vals"] = snap(cx, x, ("result",)) if isinstance(x, (ObjV, PhiV)) else {("result",): cx.eng.term(x)}
            return x
        r = cx.run(key, run)
        if r is None or "vals" not in box:
            cx.und("no-influence", key, None, "no result")
            continue
        v = box["v"]
        memo = {}

        def tainted(t, v):
            if t not in memo:
                memo[t] = reaches(t, v)
            return memo[t]
        n = 0
        for path, t in box["vals"].items():
            if t is v or path[-1] == "verbose" or t.op in ("not", "bool") and t.args[0] is v:
                continue
            n += 1
            if tainted(t, v):
                name = ".".join(str(x) for x in path if x != "?")
                dark = any(x.op == "opaque" for x in subterms(t))
                cx.put(None if dark else False, "no-influence", f"{key}: {name}", t.locs[0] if t.locs else None, f"{name} depends on the verbosity argument")
        cx.put(True, "no-influence", key, None, f"{n} values are free of the verbosity argument")
        k = 0
        for e in r.events:
            if not any(tainted(c, v) for c in e.pc if not (c.op == "not" and c.args[0].op == "brk")):
                if e.kind in HARD and any(tainted(cx.eng.term(x), v) for x in args(e)):
                    cx.put(False, "no-effect", f"{key} {e.kind}", e.loc, f"what is passed to '{e.kind}' depends on the verbosity argument")
                k += e.kind in HARD
                continue
            if e.kind in HARD:
                if e.kind == "open" and not writes(e):
                    continue
                cx.put(False, "no-effect", f"{key} {e.kind}", e.loc, f"'{e.kind}' happens only for some values of the verbosity argument")
            elif e.kind == "setattr" and e.d.get("name") != "verbose":
                cx.put(False if loads[e.d.get("name")] else None, "no-effect", f"{key} {e.d.get('name')}", e.loc, f"attribute {e.d.get('name')} is set only for some values of the verbosity argument")
            elif e.kind in SOFT:
                cx.put(None, "no-effect", f"{key} {e.kind}", e.loc, f"'{e.kind}' under a condition on the verbosity argument")
        cx.put(True, "no-effect", key, None, f"{k} effects do not depend on the verbosity argument")


def args(e):
    return [x for x in list(e.d.get("args") or ()) + list((e.d.get("kw") or {}).values()) if not isinstance(x, T.Term)] if e.kind in ("seed", "draw") else []


def writes(e):
    m = e.d.get("mode")
    m = T.cval(m) if isinstance(m, T.Term) and T.is_const(m) else m.v if isinstance(m, ConstV) else m
    return not isinstance(m, str) or any(c in m for c in "wax+")
