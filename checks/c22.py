from .base import *
from .tools import *
from . import neural
from sa.values import *
from sa.normal import norm, items, num, build, expand
from sa.shapes import Shapes, P

ID, TITLE = "C22", "Training histories are complete and correctly labelled"
RULE = ("Value analysis of the four reported series (symbolic number of epochs): each must be one entry per iteration of the epoch loop, unconditionally; the entry "
        "the quotient of an accumulator that starts at zero inside the epoch and of the number of batches, both over the loader of the labelled split; the added "
        "term must be the labelled quantity (the back-propagated loss for training loss; for the error a term of the batch and its reconstruction only; validation "
        "quantities the same expression as training up to the loading penalties), compared in algebraic normal form with forward outputs as atoms.")
ASSUMES = ["a DataLoader without drop_last yields every row of its data set exactly once per epoch"]
TECHNIQUE = "abstract interpretation to expression terms + loop-accumulator recognition + algebraic normal forms"
WITNESSES = [
    ("medil/models.py", "            train_elbo.append(train_lb)\n            train_error.append(train_er)", "            train_elbo.append(train_er)\n            train_error.append(train_lb)"),
    ("medil/models.py", "valid_lb, valid_er = self._valid_vae(model, valid_loader)", "valid_lb, valid_er = self._valid_vae(model, train_loader)"),
    ("medil/models.py", "            model.train()\n            train_lb, train_er, nbatch = 0.0, 0.0, 0\n", "            model.train()\n            if idx == 0:\n                train_lb, train_er, nbatch = 0.0, 0.0, 0\n"),
    ("medil/models.py", "        return valid_lb, valid_er\n", "        return valid_er, valid_lb\n"),
    ("medil/models.py", '            "elbo_valid": loss_recon[1],\n            "recon_train": error_recon[0],', '            "elbo_valid": error_recon[0],\n            "recon_train": loss_recon[1],'),
    ("medil/models.py", "            valid_elbo.append(valid_lb)\n", "            if idx > 0:\n                valid_elbo.append(valid_lb)\n"),
    ("medil/models.py", "            train_lb = train_lb / nbatch\n", "            train_lb = train_lb / (idx + 1)\n"),
    ("medil/models.py", "range(self.hyperparams[\"num_epochs\"])", "range(1, self.hyperparams[\"num_epochs\"])"),
    ("medil/models.py", "        valid_er = valid_er / nbatch\n", "        valid_er = valid_er\n"),
    ("medil/models.py", "                # update loss and nbatch\n                valid_lb += loss.item() / batch_size", "                # update loss and nbatch\n                valid_lb = loss.item() / batch_size"),
]
SERIES = {"elbo_train": ("train", "loss"), "elbo_valid": ("valid", "loss"), "recon_train": ("train", "error"), "recon_valid": ("valid", "error")}


def strip(t):
    while t.op in ("array", "asarray", "copyof", "astype", "tensor") and t.args:
        t = t.args[0]
    return t


def hyper(cx, m, box):
    n = cx.p("num_epochs", "int", lo=1)
    box["n"] = cx.eng.term(n)
    h = cx.eng.getattr(m, "hyperparams")
    cx.eng.setitem(h, ConstV("num_epochs"), n)


def homes(tree, lids):
    """functions the loops are written in"""
    out = set()

    def go(n):
        if isinstance(n, (list, tuple)):
            for x in n:
                go(x)
        elif hasattr(n, "kids"):
            if n.kind == "loop" and n.d.get("lid") in lids and n.d.get("loc"):
                out.add(n.d["loc"][2])
            go(n.kids)
    go(tree)
    return out


def exits(nf, lids):
    """places that leave one of the loops before its iterable is used up"""
    return [e for e in nf.r.events if e.kind == "break" and e.loops and e.loops[-1] in lids or
            e.kind == "return" and set(e.loops) & lids and e.d.get("qual") in homes(nf.r.tree, lids)]


def steps(cx, it, n):
    """does the iterable have n elements?"""
    sh = Shapes(cx.eng, {}, {})
    if it.op == "range":
        a = it.args
        if len(a) == 1:
            return sh.poly(a[0]) == sh.poly(n)
        if len(a) == 2:
            return sh.poly(a[1]) - sh.poly(a[0]) == sh.poly(n)
    if it.op in ("arange",):
        return sh.poly(it.args[0]) == sh.poly(n) if len(it.args) == 1 else None
    return None


def check(cx):
    for nf in neural.fits(cx, hyper=hyper):
        one(cx, nf)


class Entry:
    """entry of a series: accumulated contribution, its loop"""


def one(cx, nf):
    key, n = nf.key, nf.box["n"]
    ser = nf.series()
    at = {}
    for p in nf.passes:
        at.update(nf.atoms(p))
    canon = {}
    for name, (split, q) in SERIES.items():
        k = f"{key}: {name}"
        t = ser.get(name)
        if t is None:
            cx.put(False if ser else None, "series-reported", k, None, "series is not reported")
            continue
        loc = next((l for l in t.locs if l), None)
        s = strip(t)
        if s.op == "mu":
            d = T.MU[s.data]
            nx = d["next"]
            if nx.op == "store" and nx.args[0] is s and strip(d["init"]).op in ("full", "empty"):
                it = cx.eng.loopiter.get(d["loop"])
                v = steps(cx, it, n) if it is not None else None
                cx.put(v, "one-entry-per-epoch", k, loc, "array filled in the epoch loop")
                entry = nx.args[2]
            else:
                cx.und("one-entry-per-epoch", k, loc, "series built in an unknown way")
                continue
        elif s.op in ("list", "tuple"):
            if len(s.args) != 1 or s.args[0].op != "many":
                cx.put(False if not opaque_in(s) else None, "one-entry-per-epoch", k, loc, "series is not one entry per epoch")
                continue
            m = s.args[0]
            if m.data == "maybe":
                cx.bad("one-entry-per-epoch", k, loc, "the number of entries depends on a condition")
                continue
            its = m.args[1:]
            if len(its) != 1:
                cx.put(False if len(its) > 1 else None, "one-entry-per-epoch", k, loc, "entries are appended in a nested loop")
                continue
            v = steps(cx, its[0], n)
            lids = {i for i, t in cx.eng.loopiter.items() if t is its[0]}
            early = exits(nf, lids)
            if v and early:
                cx.bad("one-entry-per-epoch", k, early[0].loc, "the epoch loop can end before the declared number of epochs")
                continue
            cx.put(v, "one-entry-per-epoch", k, loc, "one unconditional entry per epoch" if v else f"entries over {its[0]}, not the declared number of epochs")
            entry = m.args[0]
        else:
            cx.put(None if opaque_in(s) else False, "one-entry-per-epoch", k, loc, "reported value is not a series")
            continue
        if any(x.op == "prior" for x in T.subterms(entry, True)):
            cx.bad("one-entry-per-epoch", k, loc, "an entry depends on the entries of earlier epochs")
            continue
        cut = [x for x in T.subterms(entry, True) if x.op == "brk" and any(y.op.endswith("DataLoader") for y in T.subterms(cx.eng.loopiter.get(x.data[0], entry)))]
        if cut:
            ev = exits(nf, {x.data[0] for x in cut})
            cx.bad("every-batch", k, ev[0].loc if ev else loc, "the loop over the batches can end before the last batch")
            continue
        got = average(cx, nf, k, entry, split, loc, at)
        if got is None:
            continue
        c, cc = got
        sp = nf.split(c)
        cx.put(True if sp == {split} else False if sp else None, "labelled-split", k, loc, f"computed from {' and '.join(sorted(sp)) or 'unknown'} data")
        names = {x.data for x in T.subterms(cc, True) if x.op == "sym"}
        kl = bool(names & {"mu", "logvar"})
        if q == "loss":
            if split == "train":
                back = [e.d["recv"] for e in nf.r.ev("mcall") if e.d["name"] == "backward"]
                hit = any(norm(T.subst(b, at)) in T.subterms(cc, True) or loss_in(norm(T.subst(b, at)), cc) for b in back)
                cx.put(True if hit else False if back and not opaque_in(c) else None, "labelled-quantity", k, loc,
                       "the back-propagated loss" if hit else "is not the loss that is back-propagated")
            else:
                cx.put(True if kl else False if names else None, "labelled-quantity", k, loc, "validation loss" if kl else "does not contain the KL term of the loss")
        else:
            good = {"batch", "recon"} <= names and "logcov" not in names and not kl
            cx.put(True if good else False if names else None, "labelled-quantity", k, loc,
                   "function of the batch and its reconstruction" if good else "is not a reconstruction error of the batch")
        canon[name] = (cc, loc)
    if "recon_train" in canon and "recon_valid" in canon:
        a, b = canon["recon_train"][0], canon["recon_valid"][0]
        cx.put(True if a is b else None if opaque_in(a) or opaque_in(b) else False, "same-quantity-for-both-splits", f"{key}: error", canon["recon_valid"][1],
               "same expression on both splits" if a is b else "training and validation error are different expressions")
    if "elbo_train" in canon and "elbo_valid" in canon:
        a, b = canon["elbo_train"][0], canon["elbo_valid"][0]
        d = norm(mk("sub", (expand(a), expand(b))))
        extra = [x for x in items(d) if any(y.op == "sym" for y in T.subterms(x, True) if y.data not in ("batch", "batch_rows", "batch_cols"))]
        # penalties depend on the weights only; scaled by the batch size
        cx.put(True if not extra else None if opaque_in(d) else False, "same-quantity-for-both-splits", f"{key}: loss", canon["elbo_valid"][1],
               "validation loss is the training loss up to penalties" if not extra else "training and validation loss differ by more than the loading penalties")


def loss_in(b, c):
    """is c a constant or batch-size multiple of b?"""
    fb, fc = items(b), items(c)
    if len(fb) != len(fc):
        return False
    rest = None
    for x in fb:
        hit = [y for y in fc if y is x or y.op == "PROD" and (x in y.args or x.op == "PROD" and set(x.args) <= set(y.args))]
        if len(hit) != 1:
            return False
    return True


def average(cx, nf, k, entry, split, loc, at):
    """the contribution of one batch to an entry, after checking the averaging"""
    e = entry
    while e.op in ("float", "tofloat", "astype", "item", "asarray") and e.args:
        e = e.args[0]
    if e.op == "mean":
        src = strip(e.args[0])
        if src.op in ("list", "gen", "tuple") and len(src.args) == 1 and src.args[0].op == "many":
            m = src.args[0]
            if m.data == "maybe":
                cx.bad("averaged-over-batches", k, loc, "some batches are left out")
                return None
            loader(cx, nf, k, m.args[1] if len(m.args) > 1 else None, split, loc)
            return m.args[0], norm(T.subst(m.args[0], at))
    if e.op == "div":
        s, c = e.args
        if s.op == "mu":
            ds = T.MU[s.data]
            z = num(ds["init"])
            if z is None or z != 0:
                w = "is not reset in every epoch" if ds["init"].op == "mu" else "does not start at zero"
                cx.put(False if ds["init"].op in ("mu", "phi") or z is not None else None, "fresh-accumulator", k, loc, f"the accumulator {w}")
                return None
            cx.ok("fresh-accumulator", k, loc, "starts at zero in every epoch")
            it = cx.eng.loopiter.get(ds["loop"])
            count(cx, nf, k, c, ds, it, loc)
            loader(cx, nf, k, it, split, loc)
            nx = norm(T.subst(ds["next"], at))
            d = items(nx)
            if nx.op == "phi":
                cx.bad("averaged-over-batches", k, loc, "some batches are left out of the accumulator")
                return None
            if d.get(s) != 1:
                cx.put(None if opaque_in(ds["next"]) else False, "averaged-over-batches", k, loc, "the accumulator does not add each batch")
                return None
            d = dict(d)
            d.pop(s)
            return ds["next"], build(d)
        src = s
        if src.op == "sum" and strip(src.args[0]).op in ("list", "gen", "tuple"):
            m = strip(src.args[0]).args
            if len(m) == 1 and m[0].op == "many" and m[0].data != "maybe" and len(m[0].args) == 2:
                loader(cx, nf, k, m[0].args[1], split, loc)
                good = c.op in ("size", "len", "dim") and any(m[0].args[1] is x or strip(src.args[0]) is x for x in T.subterms(c, True))
                cx.put(True if good else None, "averaged-over-batches", k, loc, "sum over batches divided by their number")
                return m[0].args[0], norm(T.subst(m[0].args[0], at))
    if e.op == "mu":
        cx.bad("averaged-over-batches", k, loc, "entry is not divided by the number of batches")
        return None
    inner = [x for x in T.subterms(e, True) if x.op == "mu" and x.op != "rec"]
    cx.put(None if opaque_in(e) or inner else False, "averaged-over-batches", k, loc, "entry is not an average over the batches")
    return None


def count(cx, nf, k, c, ds, it, loc):
    if c.op == "mu":
        d = T.MU[c.data]
        one = d["loop"] == ds["loop"] and num(d["init"]) == 0 and items(norm(d["next"])) == {c: 1, const(1): 1}
        if not one and d["loop"] == ds["loop"] and d["next"].op == "add":
            xs = items(norm(d["next"]))
            ix = [x for x in xs if x.op == "index"]
            one = len(ix) == 1 and xs == {ix[0]: 1, const(1): 1} and it is not None and (it.op == "enumerate" and ix[0].args[0] is it.args[0])
        if not one:
            z = num(d["init"])
            why = "the batch counter is not reset in every epoch" if z is None else "the divisor is not the number of batches"
            cx.put(None if opaque_in(d["next"]) else False, "averaged-over-batches", k, loc, why)
            return
        cx.ok("averaged-over-batches", k, loc, "divided by the number of batches")
    elif c.op in ("size", "len", "dim") and it is not None and it in T.subterms(c, True):
        cx.ok("averaged-over-batches", k, loc, "divided by the number of batches")
    elif lastindex(c, it):
        cx.ok("averaged-over-batches", k, loc, "divided by the number of the last batch, counted from one")
    else:
        cx.put(None if opaque_in(c) else False, "averaged-over-batches", k, loc, f"divided by {str(c)[:60]}, not the number of batches")


def lastindex(c, it):
    """the position of the loop's last item, counted from one"""
    xs = items(norm(c))
    ix = [x for x in xs if x.op == "index"]
    return it is not None and len(ix) == 1 and xs == {ix[0]: 1, const(1): 1} and (ix[0].args[0] is it or it.op == "enumerate" and ix[0].args[0] is it.args[0])


def loader(cx, nf, k, it, split, loc):
    if it is None:
        cx.und("labelled-split", k + " (loader)", loc, "loop not identified")
        return
    early = exits(nf, {i for i, t in cx.eng.loopiter.items() if t is it or t.op == "enumerate" and t.args[0] is it})
    if early:
        cx.bad("every-batch", k, early[0].loc, "the loop over the batches can end before the last batch")
    sp = nf.split(it)
    cx.put(True if sp == {split} else False if sp else None, "labelled-split", k + " (loader)", loc, f"batches of {' and '.join(sorted(sp)) or 'unknown'} data")
    for x in T.subterms(it, True):
        kw = dict(x.kw) if x.op.endswith("DataLoader") else {}
        if "drop_last" in kw and not is_c(kw["drop_last"], False):
            cx.put(False if is_c(kw["drop_last"], True) else None, "every-batch", k, loc, "the loader drops the last batch")
