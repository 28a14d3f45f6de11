"""Abstract values, heap records, events."""
from __future__ import annotations


class V:
    __slots__ = ()


class ConstV(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"C({self.v!r})"


class Ref(V):
    """array-like or opaque value with identity (a heap cell)"""
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return f"Ref{self.cid}"


class TupV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tup{self.items}"


class ListV(V):
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid


class DictV(V):
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid


class ObjV(V):
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return f"Obj{self.cid}"


class FuncV(V):
    __slots__ = ("node", "mod", "fid", "qual", "defaults", "kwdefaults", "cls", "kind", "is_gen")

    def __init__(self, node, mod, fid, qual, defaults, kwdefaults, cls=None, kind=None):
        self.node, self.mod, self.fid, self.qual = node, mod, fid, qual
        self.defaults, self.kwdefaults, self.cls, self.kind = defaults, kwdefaults, cls, kind

    def __repr__(self):
        return f"Func({self.qual})"


class BoundV(V):
    __slots__ = ("func", "selfv")

    def __init__(self, func, selfv):
        self.func, self.selfv = func, selfv


class ClsV(V):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return f"Cls({self.info.qual})"


class ClassInfo:
    def __init__(self, name, qual, mod, node, bases):
        self.name, self.qual, self.mod, self.node, self.bases = name, qual, mod, node, bases
        self.attrs = {}       # name -> V
        self.ann = []         # ordered annotated names (NamedTuple/dataclass)
        self.decorators = ()

    def mro(self):
        """linear approximation: self, then bases depth first; LibV bases included"""
        out = [self]
        for b in self.bases:
            if isinstance(b, ClsV):
                for c in b.info.mro():
                    if c not in out:
                        out.append(c)
            elif isinstance(b, LibV) and b not in out:
                out.append(b)
        return out

    def lib_bases(self):
        return [b.name for b in self.mro() if isinstance(b, LibV) and b.name != "builtins.object"]

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def is_module(self):
        return any(b in ("torch.nn.Module", "torch.nn.modules.module.Module", "torch.nn.modules.Module")
                   for b in self.lib_bases())

    def is_namedtuple(self):
        return any(b in ("typing.NamedTuple", "collections.namedtuple") for b in self.lib_bases()) or \
            any("dataclass" in d for d in self.decorators)


class LibV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Lib({self.name})"

    def __eq__(self, o):
        return isinstance(o, LibV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class LibM(V):
    """bound method of an opaque / collection value"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class PhiV(V):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"PhiV({self.a},{self.b})"


class UnsetV(V):
    __slots__ = ()

    def __repr__(self):
        return "Unset"


UNSETV = UnsetV()


class IterV(V):
    """lazy iterable.  kind: map(func, src), zip(srcs), enumerate(src), gen(elems), filter, rev"""
    __slots__ = ("kind", "data", "used")

    def __init__(self, kind, data):
        self.kind, self.data, self.used = kind, data, False    # used: an element was taken off by next()


class SliceV(V):
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class SuperV(V):
    __slots__ = ("obj", "cls")

    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ModV(V):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class PartialV(V):
    __slots__ = ("func", "args", "kw")

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


# --- heap records (immutable, replaced on update) ------------------------------------
class Arr:
    """term: current content (None when a view computes it from base);
    base: (cid, fn(term)->term, viewdesc) for definite views;
    alias: cids this cell may share memory with (transitively closed origins)"""
    __slots__ = ("term", "base", "alias", "joined")

    def __init__(self, term, base=None, alias=frozenset(), joined=()):
        self.term, self.base, self.alias, self.joined = term, base, alias, joined


class LObj:
    __slots__ = ("items", "kind")      # items: tuple of (V, ctx frozenset)

    def __init__(self, items=(), kind="list"):
        self.items, self.kind = tuple(items), kind


class DObj:
    __slots__ = ("entries", "kind", "extra")   # entries: dict key->V ; extra: tuple of (keyterm, V, ctx)

    def __init__(self, entries, kind="dict", extra=()):
        self.entries, self.kind, self.extra = entries, kind, tuple(extra)


class OObj:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


# --- events -----------------------------------------------------------------------------
class Ev:
    __slots__ = ("kind", "loc", "d", "pc", "ctx", "stack", "loops", "seq")

    def __init__(self, kind, loc, d, pc, ctx, stack, loops, seq):
        self.kind, self.loc, self.d, self.pc, self.ctx = kind, loc, d, pc, ctx
        self.stack, self.loops, self.seq = stack, loops, seq

    def __repr__(self):
        return f"<{self.kind} {self.d} @{self.loc}>"


class Node:
    """structured event tree node: kind in seq-if, loop, call, with, try"""
    __slots__ = ("kind", "d", "kids")

    def __init__(self, kind, d, kids):
        self.kind, self.d, self.kids = kind, d, kids

    def __repr__(self):
        return f"Node({self.kind},{self.d})"


def walk_events(evs):
    for e in evs:
        if isinstance(e, Ev):
            yield e
        else:
            for k in e.kids:
                yield from walk_events(k)
