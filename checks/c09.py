from .base import *
from .tools import *
from .api import Api

ID, TITLE = "C09", "All randomness comes from the generator supplied by the caller"
RULE = ("Provenance analysis of random draws: for every public generation, sampling and fitting entry point that takes a generator (directly or through the "
        "model), the generator of every draw reachable from it - through helpers, nested graph generation and stored fields - is traced to its source. "
        "Obligation: the source is the caller's generator on every path; global generators, fresh generators and entropy sources "
        "(clock, process id, os entropy, hash order) are reported at the draw.")
ASSUMES = []
WITNESSES = [
    ("medil/sample.py", "_biadj(rng=rng, **kwargs)", "_biadj(**kwargs)"),
    ("medil/sample.py", "rng.random(num_edges)", "np.random.random(num_edges)"),
    ("medil/sample.py", "density = rng.random()", "density = default_rng().random()"),
    ("medil/models.py", "epsilon = self.rng.multivariate_normal", "epsilon = np.random.multivariate_normal"),
    ("medil/models.py", "        self.rng = rng\n", "        self.rng = default_rng(0)\n"),
]
ENTROPY = ("time.", "datetime.", "os.getpid", "os.urandom", "uuid.", "secrets.", "random.", "builtins.id", "builtins.hash")


def sources(g):
    """possible generators of a draw"""
    out, todo, seen = [], [g], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            todo += list(x.args[1:])
        elif x.op == "mu":
            m = T.MU[x.data]
            todo += [m["init"]] + ([m["next"]] if m["next"] is not None else [])
        else:
            out.append(x)
    return out


def check(cx):
    api = Api(cx)
    n = 0
    for name, r, owned in api.runs():
        if "rng" not in owned.values() or name.startswith("NCFA") or "Neuro" in name:
            continue
        draws = r.ev("draw")
        n += 1
        if not draws:
            continue
        for e in draws:
            key = f"{name}: {e.loc[2]} {e.d['method']}"
            for g in sources(e.d["gen"]):
                if g.op == "param" and "rng" in str(g.data):
                    cx.ok("draw-from-supplied-generator", key, e.loc)
                elif g.op in ("lib",) or (g.op == "rng" and not contains(g, lambda x: x.op == "param" and "rng" in str(x.data))):
                    what = "a global generator" if g.op == "lib" else "a generator created inside the package"
                    cx.bad("draw-from-supplied-generator", key, e.loc, f"draws from {what} ({T.show(g, 2)}) although the caller supplied one")
                elif g.op == "const":
                    cx.bad("draw-from-supplied-generator", key, e.loc, f"draws from {T.show(g, 1)}")
                elif g.op == "attr" or g.op == "param":
                    cx.bad("draw-from-supplied-generator", key, e.loc, f"draws from {T.show(g, 2)}, not from the supplied generator")
                else:
                    cx.und("draw-from-supplied-generator", key, e.loc, T.show(g, 3))
        if r.result is None:
            continue
        for x in subterms(r.term()):
            if x.op.startswith("call:") and any(x.op[5:].startswith(p) for p in ENTROPY):
                cx.bad("no-hidden-entropy", f"{name}: {x.op[5:]}", (x.locs or [None])[0], "the result depends on it")
    if not n:
        cx.und("draw-from-supplied-generator", "scenarios", None, "no entry point takes a generator")
