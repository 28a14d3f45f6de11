"""NCFA.fit scenarios shared by the checks on neural training."""
from .base import *
from .tools import *
from sa.values import *
from sa.terms import mk

N = "medil.models.NeuroCausalFactorAnalysis"


class Neural:
    def __init__(self, cx, key, r, box):
        self.cx, self.key, self.r, self.box = cx, key, r, box
        self.model = box["m"]
        self.data = box["d"]
        fw = [e for e in r.ev("forward")]
        roots = [e for e in fw if not any(q.endswith(".forward") for q, _ in e.stack)]
        self.roots = {e.d["cid"] for e in roots}
        self.forwards = roots
        self.passes = [e for e in r.ev("forwarded") if e.d["cid"] in self.roots and not any(q.endswith(".forward") for q, _ in e.stack)]
        self.optims = {e.d["cid"]: e for e in r.ev("optimizer")}

    def series(self):
        """reported histories: {name: term}"""
        out = {}
        loss = self.r.field(self.model, "loss")
        if isinstance(loss, DictV):
            for k, v in self.r.st.heap[loss.cid].entries.items():
                out[k.v if isinstance(k, ConstV) else T.cval(k) if isinstance(k, T.Term) else k] = self.r.term(v)
        return out

    def atoms(self, e):
        """{batch, outputs of a forward pass -> named atoms}"""
        r = e.d["result"]
        m = {}
        if r.op == "tuple" and len(r.args) == 4:
            for n, x in zip(("recon", "logcov", "mu", "logvar"), r.args):
                m[x] = mk("sym", data=n)
        if e.d["args"]:
            x = e.d["args"][0]
            m[x] = mk("sym", data="batch")
            for i, n in ((0, "batch_rows"), (1, "batch_cols")):
                m[self.cx.eng.lib.dim(x, i)] = mk("sym", data=n)
        return m

    def split(self, t):
        """which part of the data a term is computed from: {'train'}, {'valid'}, both, or empty when unknown"""
        out = set()
        seen, todo = set(), [t]
        tr, va = self.box.get("tr"), self.box.get("va")
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "split" and isinstance(x.data, tuple):
                out.add(x.data[0])
                continue
            if x is tr:
                out.add("train")
                continue
            if x is va:
                out.add("valid")
                continue
            todo += T.children(x)
            if x.op == "mu":
                todo += [T.MU[x.data]["init"], T.MU[x.data]["next"]]
        return out


def fits(cx, splits=(False, True, "again"), hyper=None, extra=None):
    """one analysed fit per scenario: drawn split, given split, and a model that was already fitted to other data"""
    if not cx.has(N):
        return
    for split in splits:
        again, split = split == "again", split is True
        box = {}

        def fit(_):
            d = cx.p("dataset", "ndarray", 2, nonempty=True)
            box["d"] = cx.eng.term(d)
            m = box["m"] = cx.call(N, seed=cx.p("seed", "int"), path=cx.p("path", "str"))
            if hyper:
                hyper(cx, m, box)
            kw = {}
            if again:
                cx.meth(m, "fit", cx.p("earlier_dataset", "ndarray", 2, nonempty=True))
            box["at"] = cx.eng.seq
            if split:
                tr, va = cx.p("train_idcs", "ndarray", 1), cx.p("valid_idcs", "ndarray", 1)
                box["tr"], box["va"] = cx.eng.term(tr), cx.eng.term(va)
                kw["split_idcs"] = TupV([tr, va])
            box["ret"] = cx.meth(m, "fit", d, **kw)
            if extra:
                extra(cx, m, box)
            return box["ret"]
        key = f"NCFA.fit ({'given' if split else 'random'} split{', refit' if again else ''})"
        r = cx.run(key, fit)
        if r is None or r.st is None:
            cx.und("fit-analysed", key, None, "no result")
            continue
        if again:
            r.events = [e for e in r.events if e.seq is None or e.seq > box["at"]]
        yield Neural(cx, key, r, box)
