"""Path-insensitive-but-decision-consistent typestate execution over the structured event tree.

A machine supplies  initial() -> state,  step(state, event) -> state or [states],  backedge(state, loop) -> state,
relevant(event) -> bool.  States are hashable.  Branch decisions on the same condition term are kept consistent
along a path (forgotten at the back edge of the loop in which they were made).
"""
from .values import Node, Ev
from .terms import subterms

CTRL = {"break", "continue", "return", "raise"}


class Flow:
    """sets of (state, decisions) leaving a block in each way"""
    __slots__ = ("out", "brk", "cont", "ret")

    def __init__(self, out=(), brk=(), cont=(), ret=()):
        self.out, self.brk, self.cont, self.ret = set(out), set(brk), set(cont), set(ret)


class Exec:
    LIMIT = 4000

    def __init__(self, machine):
        self.m = machine
        self.rel = {}
        self.steps = 0

    def relevant(self, node):
        k = id(node)
        if k not in self.rel:
            if isinstance(node, Ev):
                self.rel[k] = self.m.relevant(node)
            else:
                self.rel[k] = any(self.relevant(x) for b in node.kids for x in b)
        return self.rel[k]

    def run(self, tree):
        return self.block(tree, {(self.m.initial(), frozenset())})

    def block(self, evs, cur):
        f = Flow()
        cur = set(cur)
        for x in evs:
            if not cur:
                break
            if isinstance(x, Ev):
                if x.kind in CTRL:
                    {"break": f.brk, "continue": f.cont, "return": f.ret, "raise": set()}[x.kind].update(cur)
                    cur = set()
                elif self.relevant(x):
                    nxt = set()
                    for s, d in cur:
                        self.steps += 1
                        r = self.m.step(s, x)
                        for q in (r if isinstance(r, list) else [r]):
                            if q is not None:
                                nxt.add((q, d))
                    cur = nxt
                continue
            if not self.relevant(x) and not self.exits(x):
                continue
            cur = self.node(x, cur, f)
            if len(cur) > self.LIMIT:
                raise OverflowError
        f.out |= cur
        return f

    def exits(self, node):
        """a branch that may leave the enclosing block"""
        if node.kind == "call":
            return False
        return any(x.kind in CTRL if isinstance(x, Ev) else self.exits(x) for b in node.kids for x in b)

    def node(self, x, cur, f):
        if x.kind == "call":
            g = self.block(x.kids[0], cur)
            return g.out | g.ret | g.brk | g.cont
        if x.kind == "if":
            c, out = x.d["cond"], set()
            for pol, body in zip((True, False), x.kids):
                ent = {(s, d | {(c.uid, pol)}) for s, d in cur if (c.uid, not pol) not in d} if c is not None else cur
                g = self.block(body, ent)
                out |= g.out
                f.brk |= g.brk
                f.cont |= g.cont
                f.ret |= g.ret
            if x.kids and not any(self.relevant(y) for b in x.kids for y in b) and not self.exits(x):
                out = cur
            return out
        if x.kind == "loop":
            seen, todo, exits = set(), set(cur), set(cur)
            before = {s: d for s, d in cur}
            base = frozenset.intersection(*[d for _, d in cur]) if cur else frozenset()
            while todo:
                seen |= todo
                g = self.block(x.kids[0], todo)
                f.ret |= g.ret
                exits |= {(s, d & base) for s, d in g.brk}
                back = {(self.m.backedge(s, x), d & base) for s, d in g.out | g.cont}
                exits |= back
                todo = back - seen
                if len(seen) > self.LIMIT:
                    raise OverflowError
            return exits
        if x.kind == "with":
            g = self.block(x.kids[0], cur)
            f.brk |= g.brk
            f.cont |= g.cont
            f.ret |= g.ret
            return g.out
        if x.kind == "try":
            g = self.block(x.kids[0], cur)
            out = set(g.out)
            for h in x.kids[1:]:
                k = self.block(h, cur | g.out)
                out |= k.out
                for a in ("brk", "cont", "ret"):
                    getattr(f, a).update(getattr(k, a))
            f.brk |= g.brk
            f.cont |= g.cont
            f.ret |= g.ret
            return out
        out = set(cur)
        for b in x.kids:
            out |= self.block(b, cur).out
        return out
