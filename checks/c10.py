from .base import *
from .tools import *

ID, TITLE = "C10", "Neural training is reproducible from its seed"
RULE = ("Event-order and provenance analysis of neural fitting: every random draw reachable from fit (weight initialisation, latent noise, data shuffling, data "
        "split) is preceded on every path by seeding its generator with the estimator's seed argument, nothing re-seeds it with another value, and the "
        "train/validation split receives the seed as random_state. Entropy sources (clock, process id, os entropy) must not reach the trained values.")
ASSUMES = ["torch and scikit-learn are deterministic on one machine for a given seed"]
WITNESSES = [
    ("medil/models.py", "        torch.manual_seed(self.seed)\n", "        if self.loss is None:\n            torch.manual_seed(self.seed)\n"),
    ("medil/models.py", "        torch.manual_seed(self.seed)\n", "        torch.manual_seed(self.seed)\n        self.seed += 1\n"),
    ("medil/models.py", "standardized, train_size=0.7, random_state=self.seed\n", "standardized, train_size=0.7, random_state=self.seed or None\n"),
    ("medil/models.py", "        torch.manual_seed(self.seed)\n", ""),
    ("medil/models.py", "random_state=self.seed", "random_state=0"),
    ("medil/models.py", "        torch.manual_seed(self.seed)\n", "        if self.verbose:\n            torch.manual_seed(self.seed)\n"),
    ("medil/models.py", "        self.seed = seed\n", "        self.seed = 0\n"),
    ("medil/models.py", "model.train()\n", "model.train()\n            torch.seed()\n"),
]


def check(cx):
    N = "medil.models.NeuroCausalFactorAnalysis"
    if not cx.has(N):
        return
    for split in (False, True, "again"):
        again, split = split == "again", split is True
        box = {}

        def f(_):
            s = cx.p("seed", "int")
            box["s"] = cx.eng.term(s)
            m = cx.call(N, seed=s, path=cx.p("path", "str"), verbose=cx.p("verbose", "bool"))
            if again:
                cx.meth(m, "fit", cx.p("earlier_dataset", "ndarray", 2, nonempty=True))
            box["at"] = cx.eng.seq
            kw = {"split_idcs": TupV([cx.p("tr", "ndarray", 1), cx.p("va", "ndarray", 1)])} if split else {}
            return cx.meth(m, "fit", cx.p("dataset", "ndarray", 2, nonempty=True), **kw)
        r = cx.run(f"NCFA.fit(split={split}{', again' if again else ''})", f)
        if r is None:
            continue
        judge(cx, r, box, f"{'re' if again else ''}fit(split={'given' if split else 'drawn'})", split)


def entropy(x):
    """a value that differs between two runs of the same program"""
    return x.op in ("clock", "hash", "id") or x.op == "draw" and x.args and x.args[0].op == "lib" and x.args[0].data == "os-entropy" or x.op.startswith("call:") and x.op[5:].startswith(
        ("os.getpid", "os.getppid", "os.times", "secrets.", "uuid.", "threading.get_ident"))


def settled(v):
    while v.op == "phi" and T.is_const(v.args[0]):
        v = v.args[1 if T.cval(v.args[0]) else 2]
    return v


def judge(cx, r, box, key, split):
    S = box["s"]
    evs = [e for e in r.events if e.seq is not None and e.seq > box["at"]]
    first = {}
    for e in r.events:
        if e.kind == "seed" and e.seq is not None and e.seq <= box["at"]:
            first.setdefault(e.d["which"], set()).add(e.d["value"])
    seeded = {}
    bad = set()
    ndraw = 0
    for e in evs:
        if e.kind == "seed":
            w, v = e.d["which"], e.d["value"]
            ent = v is not None and next((x for x in subterms(v) if entropy(x)), None)
            if ent:
                cx.bad("seeded-from-argument", f"{key}: {w} generator", e.loc, f"the seed depends on {T.show(ent, 2)}")
                bad.add(w)
            elif v is not S and w in first and v not in first[w] and v is not None and not opaque_in(v):
                cx.bad("seeded-from-argument", f"{key}: {w} generator", e.loc, f"a second fit seeds with {T.show(v, 3)}, the first with {T.show(next(iter(first[w])), 3)}")
                bad.add(w)
            elif v is S or (v is not None and contains(v, S) and v.op in ("add", "mul", "int", "toint", "mod", "abs")):
                seeded.setdefault(w, []).append(e)
            elif v is not None and v.op == "phi" and contains(v, S) and not any(settled(T.subst(v, {S: T.const(k)})) is T.const(None) for k in (0, 1, 7)):
                cx.und("seeded-from-argument", f"{key}: {w} generator", e.loc, f"seeded with {T.show(v, 3)}")
                bad.add(w)
            else:
                cx.bad("seeded-from-argument", f"{key}: {w} generator", e.loc, f"seeded with {T.show(v, 3) if v is not None else 'a fresh value'} instead of the seed argument")
                bad.add(w)
        elif e.kind == "draw":
            g = e.d["gen"]
            ndraw += 1
            w = {"torch-global": "torch", "numpy-global": "numpy", "random": "random"}.get(g.data if g.op == "lib" else None)
            k = f"{key}: {e.d['method']} draw in {e.loc[2]}"
            if e.d["method"] == "train_test_split":
                cx.bad("split-seeded", key, e.loc, "the train/validation split draws without the seed")
            elif w:
                pre = [s for s in seeded.get(w, []) if set(s.pc) <= set(e.pc)]
                if pre:
                    cx.ok("seeded-before-draw", k, e.loc)
                else:
                    cx.bad("seeded-before-draw", k, e.loc, f"the {w} generator is not seeded from the seed argument on every path before this draw")
            elif g.op == "rng" and contains(g, S):
                cx.ok("seeded-before-draw", k, e.loc)
            elif g.op == "param":
                cx.und("seeded-before-draw", k, e.loc, "generator supplied by the caller")
            elif g.op == "lib":
                cx.bad("seeded-before-draw", k, e.loc, f"draws from {T.show(g)}")
            elif g.op == "rng" and all(a.op == "const" for a in g.args):
                cx.bad("seeded-before-draw", k, e.loc, f"draws from a generator that does not use the seed argument ({T.show(g)})")
            else:
                cx.und("seeded-before-draw", k, e.loc, T.show(g, 3))
        elif e.kind == "split" and not split:
            v = e.d["kw"].get("random_state")
            if v is S:
                cx.ok("split-seeded", key, e.loc)
            elif v is None or v.op == "const" or not contains(v, S):
                cx.bad("split-seeded", key, e.loc, f"random_state is {T.show(v) if v is not None else 'not given'}")
            else:
                lost = [k for k in (0, 1, 7) if settled(T.subst(v, {S: T.const(k)})) is T.const(None)]
                cx.put(False if lost else None, "split-seeded", key, e.loc, f"with seed {lost[0]} the split is drawn without the seed" if lost else T.show(v, 3))
    if not ndraw:
        cx.und("seeded-before-draw", key, None, "no draw seen")
    for e in evs:
        if e.kind == "libcall" and str(e.d.get("name")) in ("torch.seed", "torch.initial_seed", "torch.random.seed"):
            if e.d["name"] != "torch.initial_seed":
                cx.bad("seeded-from-argument", f"{key}: torch generator", e.loc, f"{e.d['name']} re-seeds it from entropy")
