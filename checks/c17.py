from .base import *
from .tools import *
from . import neural
from sa.typestate import Exec

ID, TITLE = "C17", "Neural training updates only on training batches in training mode"
RULE = ("Typestate analysis of the optimiser protocol over the structured event tree of fit (all paths, loops to a fixpoint, so every epoch after the "
        "first is included): state = network mode x gradient state x last forward pass. Obligations: at every optimiser step the gradients were cleared "
        "and then produced by back-propagation of the current batch; what is back-propagated is computed from the training split in training mode; "
        "forward passes on validation data happen in evaluation mode under no_grad.")
ASSUMES = ["torch module/optimiser protocol: modules start in training mode; gradients accumulate until cleared"]
WITNESSES = [
    ("medil/models.py", "                optimizer.zero_grad()\n", ""),
    ("medil/models.py", "            model.train()\n            train_lb", "            train_lb"),
    ("medil/models.py", "        model.eval()\n", ""),
    ("medil/models.py", "with torch.no_grad():", "with torch.enable_grad():"),
    ("medil/models.py", "                optimizer.zero_grad()\n                loss.backward()\n                optimizer.step()", "                loss.backward()\n                optimizer.zero_grad()\n                optimizer.step()"),
    ("medil/models.py", "train_loader = self._data_loader(train_split)", "train_loader = self._data_loader(valid_split)"),
]
# state: (mode, grad, last forward (split, mode))


class Machine:
    def __init__(self, nf):
        self.nf, self.found = nf, {}
        self.seen = {}

    def initial(self):
        return (True, "clear", None)

    def relevant(self, e):
        nf = self.nf
        if e.seq is not None and e.seq <= nf.box["at"]:
            return False                # the earlier fit of the refit scenario
        if e.kind == "mode":
            return True
        if e.kind == "forward":
            return e.d["cid"] in nf.roots and not any(q.endswith(".forward") for q, _ in e.stack)
        if e.kind == "mcall":
            n = e.d["name"]
            if n == "backward":
                return True
            return n in ("zero_grad", "step") and (e.d["cid"] in nf.optims or e.d["cid"] in nf.roots)
        return False

    def backedge(self, s, loop):
        m, g, f = s
        return (m, "stale" if g == "fresh" else g, None if f is None else f)

    def note(self, verdict, rule, e, msg):
        k = (rule, e.loc, msg)
        self.found[k] = (verdict, e)

    def step(self, s, e):
        mode, g, last = s
        nf = self.nf
        if e.kind == "mode":
            v = e.d["value"]
            if e.d["cid"] in nf.roots:
                return (True if v is True or is_c(v, True) else False if is_c(v, False) or v is False else "?", g, last)
            return s
        if e.kind == "forward":
            sp = set()
            for a in e.d["args"]:
                sp |= nf.split(a)
            sp = frozenset(sp)
            if sp == {"valid"}:
                self.note({False: True, True: False}.get(mode), "validation-in-eval-mode", e, "validation forward pass" + (" in training mode" if mode is True else ""))
                ng = [c.op for c in e.ctx]
                self.note("no_grad" in ng and "enable_grad" not in ng, "validation-without-gradients", e,
                          "validation forward pass" + ("" if "no_grad" in ng else " tracks gradients"))
            elif not sp:
                self.note(None, "forward-data", e, "input of a forward pass not traced to a split")
            return (mode, g, (sp, mode))
        n = e.d["name"]
        if n == "zero_grad":
            return (mode, "clear", last)
        if n == "backward":
            sp = nf.split(e.d["recv"])
            if "valid" in sp:
                self.note(False, "only-training-loss", e, "a loss computed from validation data is back-propagated")
            elif sp == {"train"}:
                self.note(True, "only-training-loss", e, "back-propagated loss is computed from the training split")
            else:
                self.note(None, "only-training-loss", e, "back-propagated loss not traced to a split")
            if last is None:
                self.note(None, "training-mode", e, "no forward pass before backward")
            else:
                self.note({True: True, False: False}.get(last[1]), "training-mode", e,
                          "back-propagated loss was computed in " + {True: "training", False: "evaluation"}.get(last[1], "unknown") + " mode")
            if "no_grad" in [c.op for c in e.ctx]:
                self.note(False, "training-mode", e, "back-propagation under no_grad")
            return (mode, "fresh" if g in ("clear", "fresh") else "acc", last)
        if n == "step":
            if e.d["args"]:
                self.note(None, "clear-backward-step", e, "step with a closure")
                return (mode, "used", last)
            txt = {"fresh": "gradients were cleared and back-propagated for this batch", "clear": "step without back-propagation since gradients were cleared",
                   "acc": "gradients of earlier batches were not cleared before back-propagation", "used": "step reuses the gradients of the previous step",
                   "stale": "step uses the gradients of an earlier batch"}
            self.note(g == "fresh", "clear-backward-step", e, txt[g])
            return (mode, "used", last)
        return s


def check(cx):
    for nf in neural.fits(cx):
        key = nf.key
        if not nf.forwards or not nf.optims:
            cx.und("protocol", key, None, "no forward pass or no optimiser found")
            continue
        mach = Machine(nf)
        ex = Exec(mach)
        try:
            ex.run(nf.r.tree)
        except OverflowError:
            cx.und("protocol", key, None, "state limit")
            continue
        rules = {k[0] for k in mach.found}
        for (rule, loc, msg), (verdict, e) in sorted(mach.found.items(), key=lambda kv: (kv[0][0], str(kv[0][1]), kv[0][2])):
            cx.put(verdict, rule, f"{key}: {rule}", loc, msg)
        for want in ("clear-backward-step", "only-training-loss", "validation-in-eval-mode"):
            if want not in rules:
                cx.und(want, key, None, "no such event")
