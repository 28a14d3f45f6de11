"""Abstract interpreter: Python syntax tree -> value-flow graph (gated SSA) + structured events.

One pass per entry scenario.  Branches are merged at joins, loops are summarised by mu terms,
repository calls are inlined (recursion cut), library calls become terms (see libmodel.py).
Nothing of the analysed code is executed.
"""
from __future__ import annotations

import ast
from . import libnames
import builtins
import os

from . import terms as T
from .terms import mk, const, phi, land, lnot, lor, conj, TRUE, FALSE, NONE
from .values import *

UNROLL = 12
MAXDEPTH = 60
MAXREC = 2


class AnalysisError(Exception):
    pass


class State:
    __slots__ = ("frames", "heap", "facts")

    def __init__(self, frames=None, heap=None, facts=None):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}

    def fork(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap), dict(self.facts))


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.fid = None
        self.loaded = False


class Frame:
    def __init__(self, fid, qual, pcbase):
        self.fid, self.qual, self.pcbase = fid, qual, pcbase
        self.returns = []
        self.raises = []
        self.yields = []
        self.loopstack = []
        self.trydepth = 0


class Engine:
    def __init__(self, root, package="medil", overlay=None, lib=None):
        self.root, self.package = root, package
        self.overlay = overlay or {}
        self.mods = {}
        self.fmeta = {}
        self.labels = {}
        self.kinds = {}         # cid -> kind hints for params
        self._cid = 0
        self._fid = 0
        self._uid = 0
        self._lid = 0
        self.pc = []
        self.ctx = []
        self.stack = []
        self.loops = []
        self.frames = []
        self.ev = []
        self.seq = 0
        self.loc = ("?", 0, "?")
        self.intervals = {}     # Term -> (lo, hi)
        self.notnone = set()
        self._mentioned = None
        self.nprngs = set()     # terms made by numpy's default_rng
        self.kindfacts = {}     # Term -> python kind name ('ndarray', 'str', ...)
        self.unmodelled = {}
        self.loopiter = {}      # loop id -> iterated term
        self.filters, self.filterconds = {}, {}
        self.devices = False            # keep device moves in the terms (device typing)
        self.parameters, self.libmods, self.dynattr, self.dynreg, self.buffers = set(), {}, {}, {}, set()
        self.rawattrs = set()                # (cid, attribute) written past the class's __setattr__
        self.unsupported = {}
        self.stats = {"calls": 0, "stmts": 0, "inlined": set()}
        self.st = State()
        self.st.facts = {}
        from .libmodel import LibModel
        self.lib = (lib or LibModel)(self)
        self._discover()

    # ------------------------------------------------------------------ modules
    def _discover(self):
        pk = os.path.join(self.root, self.package)
        names = {}
        for dp, dn, fn in os.walk(pk):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel = rel[:-1]
                    names[".".join(rel)] = p
        for n in sorted(set(list(names) + list(self.overlay))):
            src = self.overlay.get(n)
            if src is None:
                with open(names[n], encoding="utf-8") as fh:
                    src = fh.read()
            try:
                tree = ast.parse(src)
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {names.get(n, n)}: {e}")
            self.mods[n] = Module(n, names.get(n, n), tree, src)

    def load_all(self):
        for n in sorted(self.mods):
            self.load(n)
        return self

    def load(self, name):
        m = self.mods[name]
        if m.fid is not None:
            return m
        m.fid = self.newframe(None, None, m)
        self.st.frames[m.fid]["__name__"] = ConstV(name)
        self.st.frames[m.fid]["__file__"] = ConstV(name + ".py")
        save = (self.loc, self.ev, self.pc, self.ctx, self.loops, self.frames, self.stack)
        self.pc, self.ctx, self.loops, self.stack = [], [], [], [name]
        fr = Frame(m.fid, name, 0)
        self.frames = [fr]
        self.ev = []
        self.modev = getattr(self, "modev", {})
        self.modev[name] = self.ev
        self.loc = (m.path, 0, name)
        self.exec_block(m.tree.body)
        (self.loc, self.ev, self.pc, self.ctx, self.loops, self.frames, self.stack) = save
        m.loaded = True
        return m

    def newframe(self, parent, locals_, mod):
        self._fid += 1
        self.fmeta[self._fid] = (parent, locals_, mod)
        self.st.frames[self._fid] = {}
        return self._fid

    # ------------------------------------------------------------------ helpers
    def uid(self):
        self._uid += 1
        return self._uid

    def cell(self, rec):
        self._cid += 1
        self.st.heap[self._cid] = rec
        return self._cid

    def ref(self, term, base=None, alias=frozenset()):
        return Ref(self.cell(Arr(term, base, frozenset(alias))))

    def val(self, term):
        """fresh value from a pure term (constants become constants)"""
        if term.op == "const":
            return ConstV(T.cval(term))
        return self.ref(term)

    def param(self, name, kind=None, alias=()):
        r = self.ref(mk("param", data=name))
        self.labels[r.cid] = "param:" + name
        if kind:
            self.kinds[r.cid] = kind
            self.kindfacts[mk("param", data=name)] = kind
            if kind == "ndarray":
                self.notnone.add(mk("param", data=name))
        return r

    def origins(self, v, st=None):
        st = st or self.st
        if isinstance(v, Ref):
            rec = st.heap.get(v.cid)
            return {v.cid} | (set(rec.alias) if rec else set())
        if isinstance(v, PhiV):
            return self.origins(v.a, st) | self.origins(v.b, st)
        if isinstance(v, (ListV, DictV, ObjV)):
            return {v.cid}
        return set()

    def event(self, kind, **d):
        self.seq += 1
        e = Ev(kind, self.loc, d, tuple(self.pc), tuple(self.ctx), tuple(self.stack),
               tuple(self.loops), self.seq)
        self.ev.append(e)
        return e

    def curframe(self):
        return self.frames[-1]

    # --- terms of values
    def term(self, v, st=None):
        st = st or self.st
        if isinstance(v, Ref):
            return self.content(v.cid, st)
        if isinstance(v, ConstV):
            return const(v.v)
        if isinstance(v, TupV):
            return mk("tuple", [self.term(x, st) for x in v.items])
        if isinstance(v, ListV):
            rec = st.heap.get(v.cid)
            if rec is None:
                return mk("opaque", data=f"list{v.cid}")
            out = []
            for x, c in rec.items:
                t = self.term(x, st)
                out.append(self.manyterm(t, c))
            return mk("list", out, data=rec.kind if rec.kind != "list" else None)
        if isinstance(v, DictV):
            rec = st.heap.get(v.cid)
            if rec is None:
                return mk("opaque", data=f"dict{v.cid}")
            out = []
            for k, x in rec.entries.items():
                out.append(mk("kv", (k if isinstance(k, T.Term) else const(k), self.term(x, st))))
            for k, x, c in rec.extra:
                out.append(mk("many", (mk("kv", (k, self.term(x, st))),)))
            return mk("dict", out)
        if isinstance(v, ObjV):
            rec = st.heap.get(v.cid)
            if rec is not None and rec.cls.is_namedtuple():
                return mk("tuple", [self.term(rec.fields[n], st) for n in rec.cls.ann if n in rec.fields])
            return mk("obj", data=(rec.cls.qual if rec else "?", v.cid))
        if isinstance(v, FuncV):
            return mk("func", data=(v.qual, id(v.node), v.fid))
        if isinstance(v, BoundV):
            return mk("bound", (self.term(v.func, st), self.term(v.selfv, st)))
        if isinstance(v, ClsV):
            return mk("cls", data=v.info.qual)
        if isinstance(v, LibV):
            return mk("lib", data=v.name)
        if isinstance(v, LibM):
            return mk("attr", (self.term(v.recv, st),), data=v.name)
        if isinstance(v, PhiV):
            return phi(v.cond, self.term(v.a, st), self.term(v.b, st))
        if isinstance(v, UnsetV):
            return T.UNSET
        if isinstance(v, SliceV):
            return mk("slice", (v.lo, v.hi, v.st))
        if isinstance(v, IterV):
            t = self.iterterm(v, st)
            return mk("rest", (t,)) if v.used else t
        if isinstance(v, PartialV):
            return mk("partial", [self.term(v.func, st)] + [self.term(a, st) for a in v.args])
        if isinstance(v, ModV):
            return mk("lib", data=v.mod.name)
        if isinstance(v, SuperV):
            return self.term(v.obj, st)
        return mk("opaque", data=repr(v))

    def manyterm(self, t, c):
        """an element contributed by a loop (with what the loop ranges over), or conditionally"""
        if not c:
            return t
        its = []
        for x in sorted(c):
            if x.startswith("loop:") and int(x[5:]) in self.loopiter:
                its.append(self.loopiter[int(x[5:])])
            else:
                m = mk("many", [t] + [mk("cut", (self.filters[y],)) for y in sorted(c) if y.startswith("cut:") and y in self.filters], data="maybe")
                fs = tuple(self.filters[y] for y in sorted(c) if y in self.filters and not y.startswith("cut:"))
                if fs:
                    self.filterconds[m] = fs
                return m
        return mk("many", [t] + its)

    def iterterm(self, v, st=None):
        if v.kind == "zip":
            return mk("zip", [self.term(x, st) for x in v.data])
        if v.kind == "enumerate":
            return mk("enumerate", (self.term(v.data[0], st),))
        if v.kind == "map":
            return mk("map", [self.term(v.data[0], st)] + [self.term(x, st) for x in v.data[1]])
        if v.kind == "gen":
            return mk("gen", [self.manyterm(self.term(x, st), c) for x, c in v.data["items"]],
                      data=None)
        if v.kind == "rev":
            return mk("reversed", (self.term(v.data, st),))
        if v.kind == "poolmap":
            return v.data["term"]
        if v.kind == "filter":
            return mk("filter", [self.term(v.data[0], st), self.term(v.data[1], st)])
        return mk("iter", data=self.uid())

    def content(self, cid, st=None):
        st = st or self.st
        rec = st.heap.get(cid)
        if rec is None:
            return mk("opaque", data=f"cell{cid}")
        if isinstance(rec, Arr):
            if rec.base is not None:
                bt = self.content(rec.base[0], st)
                if rec.base[1][0] == "either":
                    _, c, other = rec.base[1]
                    return phi(c, bt, self.content(other, st) if isinstance(other, int) else other)
                return self.lib.viewterm(bt, rec.base[1])
            return rec.term
        return mk("opaque", data=f"cell{cid}")

    # ------------------------------------------------------------------ truth
    def interval(self, t):
        if t in self.intervals:
            return self.intervals[t]
        if T.isnum(t):
            return (T.cval(t), T.cval(t))
        if t.op in ("dim", "size", "ndim"):
            return (0, float("inf"))
        return None

    def truth(self, t, st=None):
        st = st or self.st
        if t.op == "const":
            try:
                return bool(T.cval(t))
            except Exception:
                return None
        if t in st.facts:
            return st.facts[t]
        if t.op in ("not", "invert") and len(t.args) == 1:
            r = self.truth(t.args[0], st)
            return None if r is None or t.op == "invert" else (not r)
        if t.op == "ne":
            r = self.truth(mk("eq", t.args), st)
            return None if r is None else not r
        if t.op == "isnot":
            r = self.truth(mk("is", t.args), st)
            return None if r is None else not r
        if t.op == "band":
            r = [self.truth(a, st) for a in t.args]
            if False in r:
                return False
            return True if all(x is True for x in r) else None
        if t.op == "bor":
            r = [self.truth(a, st) for a in t.args]
            if True in r:
                return True
            return False if all(x is False for x in r) else None
        if t.op == "phi":
            c = self.truth(t.args[0], st)
            if c is not None:
                return self.truth(t.args[1 if c else 2], st)
            a, b = self.truth(t.args[1], st), self.truth(t.args[2], st)
            return a if a is not None and a == b else None
        if t.op == "is":
            a, b = t.args
            if a.op == "const" and b.op == "const":
                return T.cval(a) is T.cval(b)
            if a.op == "const" and T.cval(a) is None:
                a, b = b, a
            if b is NONE:
                n = self.isnone(a, st)
                return n
            if a is b:
                return True
            return None
        if t.op in ("eq", "lt", "le"):
            a, b = t.args
            ia, ib = self.interval(a), self.interval(b)
            if ia and ib:
                if t.op == "eq":
                    if ia[1] < ib[0] or ib[1] < ia[0]:
                        return False
                    if ia[0] == ia[1] == ib[0] == ib[1]:
                        return True
                elif t.op == "lt":
                    if ia[1] < ib[0]:
                        return True
                    if ia[0] >= ib[1]:
                        return False
                else:
                    if ia[1] <= ib[0]:
                        return True
                    if ia[0] > ib[1]:
                        return False
            if t.op == "eq":
                na = self.isnone(a, st) if b is NONE else (self.isnone(b, st) if a is NONE else None)
                if (a is NONE or b is NONE) and na is not None:
                    return na
                for p, q in ((a, b), (b, a)):
                    k = self.kindfacts.get(p)
                    if k and k != "str" and q.op == "const" and isinstance(T.cval(q), str):
                        return False
            return None
        if t.op == "in":
            x, c = t.args
            if c.op in ("list", "tuple", "dict") and x.op == "const":
                ks = [a.args[0] if a.op == "kv" else a for a in c.args]
                if all(k.op == "const" for k in ks):
                    return any(T.cval(k) == T.cval(x) for k in ks)
            return None
        if t.op == "notin":
            r = self.truth(mk("in", t.args), st)
            return None if r is None else not r
        if t.op in ("lib", "func", "cls", "bound"):
            return True
        if t.op in ("list", "tuple", "dict"):
            if not t.args:
                return False
            if any(a.op != "many" for a in t.args):
                return True
            return None
        iv = self.interval(t)
        if iv and (iv[0] > 0 or iv[1] < 0):
            return True
        if t.op == "obj":
            return True
        return None

    NONNULL = {"ofshape", "add", "sub", "mul", "div", "matmul", "full", "store", "T", "sum", "mean", "array", "astype",
               "strcat", "tostr", "list", "tuple", "dict", "obj", "func", "lib", "cls", "eye", "pow", "neg",
               "vstack", "hstack", "concat", "cov", "corr", "lt", "le", "eq", "ne", "not", "and", "or", "zip",
               "draw", "size", "dim", "shape", "abs", "exp", "log", "sqrt", "tile", "reshape", "where1", "triu", "tril",
               "flatnonzero", "argwhere", "arange", "empty", "copy", "any", "all", "bound"}

    def isnone(self, t, st):
        if t.op == "const":
            return T.cval(t) is None
        key = mk("is", (t, NONE))
        if key in st.facts:
            return st.facts[key]
        if t.op in self.NONNULL or t in self.notnone or self.kindfacts.get(t) in ("ndarray", "str", "generator"):
            return False
        if t.op == "phi":
            c = self.truth(t.args[0], st)
            if c is not None:
                return self.isnone(t.args[1 if c else 2], st)
            a, b = self.isnone(t.args[1], st), self.isnone(t.args[2], st)
            return a if a is not None and a == b else None
        return None

    def assume(self, t, val, st=None):
        st = st or self.st
        if t.op == "const":
            return
        st.facts[t] = val
        if t.op == "not":
            self.assume(t.args[0], not val, st)
        if t.op == "ne":
            st.facts[mk("eq", t.args)] = not val
        if t.op == "eq":
            st.facts[mk("ne", t.args)] = not val
        if t.op == "isnot":
            st.facts[mk("is", t.args)] = not val
        if t.op == "is":
            st.facts[mk("isnot", t.args)] = not val
        if t.op == "band" and val:
            for a in t.args:
                self.assume(a, True, st)
        if t.op == "bor" and not val:
            for a in t.args:
                self.assume(a, False, st)
        if t.op == "lt":
            st.facts[mk("le", (t.args[1], t.args[0]))] = not val
        if t.op == "le":
            st.facts[mk("lt", (t.args[1], t.args[0]))] = not val

    # ------------------------------------------------------------------ joins
    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, (Ref, ListV, DictV, ObjV)):
            return a.cid == b.cid
        if isinstance(a, ConstV):
            return type(a.v) is type(b.v) and a.v == b.v
        if isinstance(a, TupV):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, LibV):
            return a.name == b.name
        if isinstance(a, FuncV):
            return a.node is b.node and a.fid == b.fid
        if isinstance(a, BoundV):
            return self.same(a.func, b.func) and self.same(a.selfv, b.selfv)
        if isinstance(a, ClsV):
            return a.info is b.info
        if isinstance(a, LibM):
            return a.name == b.name and self.same(a.recv, b.recv)
        if isinstance(a, ModV):
            return a.mod is b.mod
        if isinstance(a, PhiV):
            return a.cond is b.cond and self.same(a.a, b.a) and self.same(a.b, b.b)
        return False

    def joinval(self, c, a, b, S, A, B):
        if self.same(a, b):
            return a
        if isinstance(a, UnsetV) or isinstance(b, UnsetV):
            return PhiV(c, a, b)
        if isinstance(a, PhiV) and a.cond is c:
            a = a.a
        if isinstance(b, PhiV) and b.cond is c:
            b = b.b
        if isinstance(a, (Ref, ConstV)) and isinstance(b, (Ref, ConstV)):
            ta, tb = self.term(a, A), self.term(b, B)
            t = phi(c, ta, tb)
            al = self.origins(a, A) | self.origins(b, B)
            self._cid += 1
            base = None
            for x, y, k, H in ((a, b, c, A), (b, a, T.lnot(c), B)):
                r = H.heap.get(x.cid) if isinstance(x, Ref) else None
                if isinstance(r, Arr) and r.base is not None and base is None:
                    base = (x.cid, ("either", k, y.cid if isinstance(y, Ref) else self.term(y)))
            S.heap[self._cid] = Arr(None if base else t, base, frozenset(al))
            return Ref(self._cid)
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return TupV([self.joinval(c, x, y, S, A, B) for x, y in zip(a.items, b.items)])
        if self.same(a, b):
            return a
        return PhiV(c, a, b)

    def joinrec(self, c, ra, rb, S, A, B, cid):
        if ra is rb:
            return ra
        if isinstance(ra, Arr) and isinstance(rb, Arr):
            if ra.base is not None and rb.base is not None and ra.base == rb.base:
                return Arr(None, ra.base, ra.alias | rb.alias)
            return Arr(phi(c, self.content(cid, A), self.content(cid, B)), None, ra.alias | rb.alias)
        if isinstance(ra, LObj) and isinstance(rb, LObj):
            if ra.items == rb.items:
                return ra
            out = []
            n = 0
            while n < min(len(ra.items), len(rb.items)) and self.same(ra.items[n][0], rb.items[n][0]) \
                    and ra.items[n][1] == rb.items[n][1]:
                out.append(ra.items[n])
                n += 1
            resta, restb = ra.items[n:], rb.items[n:]
            if len(resta) == len(restb) and all(not x[1] for x in resta + restb):
                for (x, _), (y, _) in zip(resta, restb):
                    out.append((self.joinval(c, x, y, S, A, B), frozenset()))
            else:
                for x, cx in resta + restb:
                    out.append((x, cx | {"maybe"}))
            return LObj(out, ra.kind)
        if isinstance(ra, DObj) and isinstance(rb, DObj):
            ent = {}
            for k in list(ra.entries) + [k for k in rb.entries if k not in ra.entries]:
                ent[k] = self.joinval(c, ra.entries.get(k, UNSETV), rb.entries.get(k, UNSETV), S, A, B)
            ex = list(ra.extra) + [x for x in rb.extra if x not in ra.extra]
            return DObj(ent, ra.kind, ex)
        if isinstance(ra, OObj) and isinstance(rb, OObj):
            f = {}
            for k in list(ra.fields) + [k for k in rb.fields if k not in ra.fields]:
                f[k] = self.joinval(c, ra.fields.get(k, UNSETV), rb.fields.get(k, UNSETV), S, A, B)
            return OObj(ra.cls, f)
        return ra

    def join(self, c, A, B):
        if A is None:
            return B
        if B is None:
            return A
        S = State()
        S.heap = {}
        for cid, ra in A.heap.items():
            S.heap[cid] = ra
        todo = []
        for cid, rb in B.heap.items():
            ra = A.heap.get(cid)
            if ra is None:
                S.heap[cid] = rb
            elif ra is not rb:
                todo.append(cid)
        for cid in todo:
            S.heap[cid] = self.joinrec(c, A.heap[cid], B.heap[cid], S, A, B, cid)
        for fid in set(A.frames) | set(B.frames):
            fa, fb = A.frames.get(fid), B.frames.get(fid)
            if fa is None or fb is None:
                S.frames[fid] = dict(fa if fb is None else fb)
                continue
            f = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                f[k] = self.joinval(c, fa.get(k, UNSETV), fb.get(k, UNSETV), S, A, B)
            S.frames[fid] = f
        S.facts = {k: v for k, v in A.facts.items() if B.facts.get(k) == v and k in B.facts}
        return S

    def pcsince(self, base):
        return conj(self.pc[base:])

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        """executes in self.st; returns completion condition (Term)"""
        base = len(self.pc)
        for s in stmts:
            if self.st is None:
                break
            self.stats["stmts"] += 1
            self.loc = (self.loc[0], getattr(s, "lineno", self.loc[1]), self.loc[2])
            T.CURRENT_LOC = self.loc
            comp = self.exec_stmt(s)
            if comp is not None and comp is not TRUE and self.st is not None:
                self.pc.append(comp)
                self.assume(comp, True)
            if self.frames and self.frames[-1].trydepth and self.st is not None:
                self.frames[-1].trystates[-1] = self.st
        out = self.pcsince(base)
        del self.pc[base:]
        return out

    def exec_stmt(self, s):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unsupported[type(s).__name__] = self.unsupported.get(type(s).__name__, 0) + 1
            return None
        return m(s)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        pass

    x_Nonlocal = x_Global

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.name in self.mods or top == self.package:
                if a.name in self.mods:
                    self.load(a.name)
                    self.load(top) if top in self.mods else None
                    self.setname(a.asname or top, ModV(self.mods[a.name if a.asname else top]))
                else:
                    self.event("import-missing", name=a.name)
                    self.setname(a.asname or top, LibV(a.name))
            else:
                self.event("import", name=a.name)
                self.setname(a.asname or top, LibV(a.name if a.asname else top))

    def x_ImportFrom(self, s):
        mod = self.fmeta[self.curframe().fid][2]
        base = s.module or ""
        if s.level:
            pk = mod.name.split(".")
            is_pkg = os.path.basename(mod.path) == "__init__.py"
            up = s.level - (1 if is_pkg else 0)
            pk = pk[: len(pk) - up] if up else pk
            base = ".".join(pk + ([base] if base else []))
        for a in s.names:
            nm = a.asname or a.name
            if base in self.mods:
                m = self.load(base)
                if a.name == "*":
                    for k, v in self.st.frames[m.fid].items():
                        if not k.startswith("_"):
                            self.setname(k, v)
                    continue
                v = self.st.frames[m.fid].get(a.name)
                if v is None and base + "." + a.name in self.mods:
                    v = ModV(self.load(base + "." + a.name))
                if v is None:
                    self.event("import-missing", name=f"{base}.{a.name}")
                    v = LibV(f"{base}.{a.name}")
                self.setname(nm, v)
            elif base.split(".")[0] == self.package:
                self.event("import-missing", name=f"{base}.{a.name}")
                self.setname(nm, LibV(f"{base}.{a.name}"))
            else:
                self.event("import", name=f"{base}.{a.name}")
                self.setname(nm, LibV(f"{base}.{a.name}"))

    def mkfunc(self, node, qual, cls=None, kind=None):
        a = node.args
        mod = self.fmeta[self.curframe().fid][2]
        pos = a.posonlyargs + a.args
        defs = {}
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defs[arg.arg] = self._default(d, qual, arg.arg)
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self._default(d, qual, arg.arg)
        return FuncV(node, mod, self.curframe().fid, qual, defs, kwd, cls, kind)

    def _default(self, d, qual, name):
        v = self.eval(d)
        if isinstance(v, (Ref, ListV, DictV, ObjV)):
            for o in {v.cid}:
                self.labels.setdefault(o, f"default:{qual}.{name}")
        return v

    def qualname(self, name):
        return self.loc[2] + "." + name

    def x_FunctionDef(self, s):
        kind = None
        for d in s.decorator_list:
            dn = ast.unparse(d)
            if dn in ("staticmethod", "classmethod", "property"):
                kind = dn
            elif dn.split("(")[0].split(".")[-1] in ("cached_property",):
                kind = "property"
        f = self.mkfunc(s, self.qualname(s.name), kind=kind)
        for d in reversed(s.decorator_list):
            if kind is None and not self.gradless(d):
                v = self.eval(d)
                if isinstance(v, FuncV) and self.st is not None:
                    f = self.callv(v, [f], {})
        self.setname(s.name, f)

    @staticmethod
    def gradless(d):
        """decorator that disables gradient tracking"""
        return ast.unparse(d).split("(")[0].split(".")[-1] in ("no_grad", "inference_mode")

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        mod = self.fmeta[self.curframe().fid][2]
        info = ClassInfo(s.name, self.qualname(s.name), mod, s, bases)
        info.decorators = tuple(ast.unparse(d) for d in s.decorator_list)
        save = self.loc
        parent = self.curframe().fid
        fid = self.newframe(parent, None, mod)
        fr = Frame(fid, info.qual, len(self.pc))
        self.frames.append(fr)
        self.loc = (self.loc[0], s.lineno, info.qual)
        self.fmeta[fid] = (parent, "class", mod)
        self.exec_block(s.body)
        self.frames.pop()
        self.loc = save
        for b in s.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                info.ann.append(b.target.id)
        for k, v in self.st.frames.pop(fid).items():
            if isinstance(v, FuncV):
                v.cls = info
                v.fid = parent
            info.attrs[k] = v
        self.setname(s.name, ClsV(info))

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else ConstV(None)
        if self.st is None:
            return
        fr = self.curframe()
        self.event("return", qual=fr.qual, value=self.term(v))
        fr.returns.append((self.pcsince(fr.pcbase), v, self.st))
        self.st = None

    def x_Raise(self, s):
        v = self.eval(s.exc) if s.exc is not None else None
        if self.st is None:
            return
        name = self.excname(s.exc)
        self.event("raise", exc=name, value=self.term(v) if v is not None else None)
        self.do_raise(name)

    def do_raise(self, name):
        fr = self.curframe()
        fr.raises.append((self.pcsince(fr.pcbase), name, self.st))
        self.st = None

    def excname(self, e):
        if e is None:
            return "reraise"
        if isinstance(e, ast.Call):
            e = e.func
        try:
            return ast.unparse(e).split(".")[-1]
        except Exception:
            return "?"

    def x_Assert(self, s):
        c = self.cond(s.test)
        self.event("assert", cond=c)
        if self.truth(c) is None:
            fr = self.curframe()
            fr.raises.append((land(self.pcsince(fr.pcbase), lnot(c)), "AssertionError", self.st.fork()))
            return c

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.delname(t.id)
            else:
                self.eval(t.value) if hasattr(t, "value") else None
                if isinstance(t, ast.Subscript):
                    b = self.eval(t.value)
                    self.event("delitem", target=self.term(b))
                    self.mutate_container(b, "del")

    def mutate_container(self, v, how):
        if isinstance(v, (ListV, DictV)):
            self.event("mutate", origins=frozenset({v.cid}), how=how, term=None)
            rec = self.st.heap[v.cid]
            if isinstance(rec, LObj):
                self.st.heap[v.cid] = LObj([(x, c | {"maybe"}) for x, c in rec.items], rec.kind)

    def x_Assign(self, s):
        v = self.eval(s.value)
        if self.st is None:
            return
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            if self.st is not None:
                self.assign(s.target, v)

    def x_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getname(t.id)
            rhs = self.eval(s.value)
            self.assign(t, self.augment(cur, op, rhs, t.id))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            cur = self.getattr(obj, t.attr)
            rhs = self.eval(s.value)
            nv = self.augment(cur, op, rhs, t.attr)
            self.setattr(obj, t.attr, nv)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            idx = self.evalidx(t.slice)
            cur = self.getitem(obj, idx, load=True)
            rhs = self.eval(s.value)
            if isinstance(obj, Ref):
                nt = self.lib.binop_term(op, self.term(cur), self.term(rhs))
                self.event("augitem", base=self.term(obj), idx=self.term(idx), op=op, rhs=self.term(rhs))
                self.setitem(obj, idx, self.val(nt), aug=op)
            else:
                self.setitem(obj, idx, self.augment(cur, op, rhs, "item"))

    def is_arrayish(self, v):
        """evidence that a Ref is an array (so that x += y writes in place)"""
        if not isinstance(v, Ref):
            return False
        st = self.st
        k = None
        for o in self.origins(v):
            k = k or self.kinds.get(o)
        t = self.term(v)
        if k in ("ndarray", "tensor", "list"):
            return True
        if k in ("int", "float", "str", "bool"):
            return False
        return self.lib.ndim_positive(t)

    def augment(self, cur, op, rhs, name):
        if isinstance(cur, PhiV):
            self.checkbound(cur, name)
            cur = self.dephi(cur)
        if isinstance(cur, ListV) and op == "add":
            self.event("mutate", origins=frozenset({cur.cid}), how="+=", term=None)
            self.lib.list_extend(cur, rhs)
            return cur
        if isinstance(cur, Ref) and self.is_arrayish(cur):
            old = self.term(cur)
            new = self.lib.binop_term(op, old, self.term(rhs))
            self.write(cur, new, f"in-place {op}=")
            return cur
        return self.binop(op, cur, rhs)

    def x_If(self, s):
        c = self.cond(s.test)
        if self.st is None:
            return
        tv = self.truth(c)
        if tv is not None:
            # analysed as straight-line code: the other branch is infeasible in this scenario
            self.event("folded-branch", cond=c, taken=tv)
            self.assume(c, tv)
            return self.exec_block(s.body if tv else s.orelse)
        s0 = self.st
        outer = self.ev
        res = []
        for pol, body in ((True, s.body), (False, s.orelse)):
            self.st = s0.fork()
            self.assume(c, pol)
            self.ev = []
            pcc = c if pol else lnot(c)
            self.pc.append(pcc)
            comp = self.exec_block(body)
            self.pc.pop()
            res.append((self.st, comp, self.ev))
        self.ev = outer
        (sa, ca, ea), (sb, cb, eb) = res
        self.ev.append(Node("if", {"cond": c, "loc": self.loc}, [ea, eb]))
        self.st = self.join(c, sa, sb)
        if sa is None and sb is None:
            return None
        pa = FALSE if sa is None else ca
        pb = FALSE if sb is None else cb
        if pa is TRUE and pb is TRUE:
            return TRUE
        return lor(land(c, pa), land(lnot(c), pb))

    def x_Match(self, s):
        subj = self.eval(s.subject)
        # desugar to a chain of ifs on equality
        s0 = self.st
        self._match(subj, s.cases)
        return None

    def _match(self, subj, cases):
        if not cases or self.st is None:
            return
        c = cases[0]
        cond = self._pattern(subj, c.pattern)
        if c.guard is not None:
            cond = land(cond, self.cond(c.guard))
        tv = self.truth(cond)
        if tv is True:
            self.exec_block(c.body)
            return
        if tv is False:
            return self._match(subj, cases[1:])
        s0 = self.st
        outer = self.ev
        self.st = s0.fork()
        self.ev = []
        self.assume(cond, True)
        self.pc.append(cond)
        self.exec_block(c.body)
        self.pc.pop()
        sa, ea = self.st, self.ev
        self.st = s0.fork()
        self.ev = []
        self.assume(cond, False)
        self.pc.append(lnot(cond))
        self._match(subj, cases[1:])
        self.pc.pop()
        sb, eb = self.st, self.ev
        self.ev = outer
        self.ev.append(Node("if", {"cond": cond, "loc": self.loc}, [ea, eb]))
        self.st = self.join(cond, sa, sb)
        if (sa is None) != (sb is None):
            self.pc.append(cond if sb is None else lnot(cond)) if False else None

    def _pattern(self, subj, p):
        if isinstance(p, ast.MatchValue):
            return T.binop("eq", self.term(subj), self.term(self.eval(p.value)))
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                r = lor(r, self._pattern(subj, q))
            return r
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.setname(p.name, subj)
            return TRUE
        if isinstance(p, ast.MatchSingleton):
            return mk("is", (self.term(subj), const(p.value)))
        return mk("match", (self.term(subj),), data=self.uid())

    # --- loops
    def x_While(self, s):
        def body():
            c = self.cond(s.test)
            tv = self.truth(c)
            return c, tv

        return self.loop("while", s, None, s.test, None)

    def x_For(self, s):
        it = self.eval(s.iter)
        if self.st is None:
            return
        items = self.known_items(it)
        if items is not None and len(items) <= UNROLL:
            return self.unrolled(s, items)
        return self.loop("for", s, it, None, None)

    x_AsyncFor = x_For

    def unrolled(self, s, items):
        fr = self.curframe()
        ctx = {"breaks": [], "continues": [], "pcbase": len(self.pc)}
        fr.loopstack.append(ctx)
        lid = None
        outer = self.ev
        for n, it in enumerate(items):
            if self.st is None:
                break
            ctx["continues"] = []
            self.assign(s.target, it)
            base = len(self.pc)
            self.exec_block(s.body)
            for pc, stt in ctx["continues"]:
                self.st = self.join(pc, stt, self.st)
        fr.loopstack.pop()
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        for pc, stt in ctx["breaks"]:
            self.st = self.join(pc, stt, self.st)

    def x_Break(self, s):
        fr = self.curframe()
        c = fr.loopstack[-1]
        c["breaks"].append((self.pcsince(c["pcbase"]), self.st))
        self.event("break")
        self.st = None

    def x_Continue(self, s):
        self.event("continue")
        fr = self.curframe()
        c = fr.loopstack[-1]
        c["continues"].append((self.pcsince(c["pcbase"]), self.st))
        self.st = None

    def diff(self, A, B):
        """what existed in A and differs in B: (vars, cells)"""
        vs, cs = set(), set()
        for fid, fa in A.frames.items():
            fb = B.frames.get(fid)
            if fb is None:
                continue
            for k, v in fa.items():
                w = fb.get(k, UNSETV)
                if not self.same(v, w):
                    if isinstance(v, (Ref, ConstV)) and isinstance(w, (Ref, ConstV)) and \
                            self.term(v, A) is self.term(w, B) and isinstance(v, ConstV) == isinstance(w, ConstV):
                        continue
                    vs.add((fid, k))
        for cid, ra in A.heap.items():
            rb = B.heap.get(cid)
            if rb is not None and rb is not ra:
                if isinstance(ra, Arr) and isinstance(rb, Arr) and ra.base == rb.base and \
                        (ra.base is not None or ra.term is rb.term):
                    continue
                cs.add(cid)
        return vs, cs

    def run_body(self, kind, s, it, lid, H, runner=None):
        """one abstract iteration from header state H; returns (end state, cond term)"""
        fr = self.curframe()
        self.st = H.fork()
        ctx = {"breaks": [], "continues": [], "pcbase": len(self.pc)}
        fr.loopstack.append(ctx)
        self.loops.append(lid)
        cond = None
        exitst = None
        base = len(self.pc)
        if kind == "while":
            cond = self.cond(s.test)
            tv = self.truth(cond)
            if tv is not True:
                exitst = self.st.fork()
                self.assume(cond, False, exitst)
            if tv is False:
                self.st = None
            else:
                self.assume(cond, True)
                if tv is None:
                    self.pc.append(cond)
        else:
            exitst = self.st.fork()
            ev = self.elem(it, lid)
            self.pc.append(mk("inloop", data=lid))
            if self.st is not None:
                self.assign(s.target, ev)
        if self.st is not None:
            if runner:
                runner()
            else:
                self.exec_block(s.body)
        del self.pc[base:]
        for pc, stt in ctx["continues"]:
            self.st = self.join(pc, stt, self.st)
        end = self.st
        fr.loopstack.pop()
        self.loops.pop()
        return end, cond, exitst, ctx["breaks"]

    def loop(self, kind, s, it, test, runner):
        fr = self.curframe()
        self._lid += 1
        lid = self._lid
        S0 = self.st
        itt = self.term(it) if it is not None else None
        if itt is not None:
            self.loopiter[lid] = itt
        outer = self.ev
        nret, nrai, nyi = len(fr.returns), len(fr.raises), len(fr.yields)
        vs, cs = set(), set()
        H = S0
        mus = {}
        E = None
        for attempt in range(6):
            del fr.returns[nret:], fr.raises[nrai:], fr.yields[nyi:]
            self.ev = []
            end, cond, exitst, breaks = self.run_body(kind, s, it, lid, H, runner)
            E = end
            nv, nc = set(), set()
            for x in [end] + [b for _, b in breaks]:
                if x is None:
                    continue
                a, b = self.diff(H, x)
                if x is end:
                    nv |= a
                    nc |= b
                else:
                    # breaking paths do not flow back to the header
                    pass
            if nv <= vs and nc <= cs:
                break
            vs |= nv
            cs |= nc
            H, mus = self.header(S0, E, vs, cs, lid, mus)
        body_ev = self.ev
        self.ev = outer
        # close mus
        for key, (m, where) in mus.items():
            if E is None:
                T.MU[m.data]["next"] = T.MU[m.data]["next"] or T.MU[m.data]["init"]
                continue
            if key[0] == "var":
                v = E.frames.get(key[1], {}).get(key[2])
                nt = self.term(v, E) if v is not None else None
            elif key[0] == "tup":
                v = E.frames.get(key[1], {}).get(key[2])
                nt = self.term(v.items[key[3]], E) if isinstance(v, TupV) and key[3] < len(v.items) else \
                    mk("opaque", data=f"tup{self.uid()}")
            elif key[0] == "cell":
                nt = self.content(key[1], E)
            else:
                rec = E.heap.get(key[1])
                v = rec.fields.get(key[2]) if isinstance(rec, OObj) else None
                nt = self.term(v, E) if v is not None else None
            T.MU[m.data]["next"] = nt if nt is not None else T.MU[m.data]["init"]
        self.ev.append(Node("loop", {"lid": lid, "kind": kind, "iter": itt, "cond": cond, "loc": self.loc,
                                     "S0": None}, [body_ev]))
        # exit state
        ran = mk("ran", data=lid)
        X = exitst
        if X is not None and E is not None:
            for cid, rec in E.heap.items():
                if cid not in X.heap:
                    X.heap[cid] = rec
            for fid, f in E.frames.items():
                if fid not in X.frames:
                    continue
                for k, v in f.items():
                    if k not in X.frames[fid]:
                        X.frames[fid][k] = v if isinstance(v, PhiV) and isinstance(v.b, UnsetV) else PhiV(ran, v, UNSETV)
            # list growth
            for cid in cs:
                ra, re = S0.heap.get(cid), E.heap.get(cid)
                if isinstance(ra, LObj) and isinstance(re, LObj):
                    n = len(ra.items)
                    re = LObj([x for x in re.items if f"prior:{lid}" not in x[1]], re.kind)
                    keep = [x for x in ra.items]
                    new = [(v, c | {f"loop:{lid}"}) for v, c in re.items[n:]]
                    if re.items[:n] != ra.items[:n]:
                        keep = [(v, c | {"maybe"}) for v, c in re.items[:n]]
                    X.heap[cid] = LObj(keep + new, re.kind)
                elif isinstance(ra, DObj) and isinstance(re, DObj):
                    X.heap[cid] = self.joinrec(ran, re, ra, X, E, S0, cid)
        self.st = X
        orelse = getattr(s, "orelse", None)
        if self.st is not None and orelse:
            self.exec_block(orelse)
        for n, (pc, stt) in enumerate(breaks):
            if stt is not None:
                # break path keeps its own list growth
                for cid in list(stt.heap):
                    rs, ra = stt.heap[cid], S0.heap.get(cid)
                    if isinstance(rs, LObj) and isinstance(ra, LObj) and rs is not ra:
                        k = len(ra.items)
                        rs = LObj([x for x in rs.items if f"prior:{lid}" not in x[1]], rs.kind)
                        stt.heap[cid] = LObj(list(rs.items[:k]) + [(v, c | {f"loop:{lid}"}) for v, c in rs.items[k:]], rs.kind)
            self.st = self.join(mk("brk", data=(lid, n)), stt, self.st)
        return None

    def header(self, S0, E, vs, cs, lid, old):
        H = S0.fork()
        mus = {}
        save, self.st = self.st, H

        def newmu(key, init, name):
            if key in old:
                m = old[key][0]
                T.MU[m.data]["init"] = init
            else:
                m = T.new_mu(init, lid, name)
            mus[key] = (m, None)
            return m

        for fid, k in sorted(vs, key=lambda p: (p[0], p[1])):
            v0 = S0.frames[fid][k]
            ve = E.frames.get(fid, {}).get(k) if E is not None else None
            if isinstance(v0, TupV) and isinstance(ve, TupV) and len(v0.items) == len(ve.items):
                items = []
                for i, (x, y) in enumerate(zip(v0.items, ve.items)):
                    m = newmu(("tup", fid, k, i), self.term(x, S0), f"{k}[{i}]")
                    al = {o for o in self.origins(x, S0) | self.origins(y, E) if o in S0.heap}
                    items.append(self.ref(m, None, al))
                H.frames[fid][k] = TupV(items)
                continue
            if isinstance(v0, (ObjV, FuncV, BoundV, ListV, DictV, ClsV, IterV)) or \
                    isinstance(ve, (ObjV, ListV, DictV, FuncV, BoundV, ClsV)):
                # structured values: keep both possibilities
                ran = mk("ran", data=lid)
                if ve is not None and not (isinstance(ve, PhiV) and ve.cond is ran):
                    for cid, rec in E.heap.items():
                        if cid not in H.heap:
                            H.heap[cid] = rec
                    H.frames[fid][k] = PhiV(ran, ve, v0)
                continue
            m = newmu(("var", fid, k), self.term(v0, S0), k)
            al = {o for o in self.origins(v0, S0) if o in S0.heap}
            if ve is not None:
                al |= {o for o in self.origins(ve, E) if o in S0.heap}
            H.frames[fid][k] = self.ref(m, None, al)
        for cid in sorted(cs):
            r0 = S0.heap.get(cid)
            re = E.heap.get(cid) if E is not None else None
            S00 = S0
            if r0 is None:
                # created by an earlier abstract iteration and carried along
                r0 = H.heap.get(cid) or re
                if r0 is None:
                    continue
                S00 = H if cid in H.heap else E
            if isinstance(r0, Arr):
                if r0.base is not None:
                    continue
                if ("cell", cid) in old and S00 is not S0:
                    m = newmu(("cell", cid), T.MU[old[("cell", cid)][0].data]["init"], f"cell{cid}")
                else:
                    m = newmu(("cell", cid), self.content(cid, S00), f"cell{cid}")
                H.heap[cid] = Arr(m, None, r0.alias | (re.alias if isinstance(re, Arr) else frozenset()))
            elif isinstance(r0, OObj):
                f = dict(r0.fields)
                for k in list(re.fields) if isinstance(re, OObj) else []:
                    a, b = r0.fields.get(k, UNSETV), re.fields[k]
                    if self.same(a, b):
                        continue
                    if isinstance(a, UnsetV):
                        ran = mk("ran", data=lid)
                        if isinstance(b, PhiV) and b.cond is ran:
                            f[k] = b
                        elif isinstance(b, (Ref, ConstV)):
                            m = newmu(("fld", cid, k), T.UNSET, k)
                            f[k] = PhiV(ran, self.ref(m), UNSETV)
                        else:
                            for c2, rec in E.heap.items():
                                if c2 not in H.heap:
                                    H.heap[c2] = rec
                            f[k] = PhiV(ran, b, UNSETV)
                    elif isinstance(a, (Ref, ConstV, PhiV)) and isinstance(b, (Ref, ConstV, PhiV)):
                        m = newmu(("fld", cid, k), self.term(a, S0), k)
                        al = {o for o in self.origins(a, S0) | self.origins(b, E) if o in S0.heap}
                        nv = self.ref(m, None, al)
                        if isinstance(a, PhiV) and isinstance(a.b, UnsetV):
                            nv = PhiV(a.cond, nv, UNSETV)
                        f[k] = nv
                    else:
                        for c2, rec in E.heap.items():
                            if c2 not in H.heap:
                                H.heap[c2] = rec
                        f[k] = PhiV(mk("ran", data=lid), b, a)
                H.heap[cid] = OObj(r0.cls, f)
            elif isinstance(r0, LObj) and isinstance(re, LObj):
                if re.items[: len(r0.items)] != r0.items:
                    H.heap[cid] = LObj([(v, c | {"maybe"}) for v, c in r0.items], r0.kind)
                elif len(re.items) > len(r0.items) and r0.kind == "list":
                    # what earlier iterations appended
                    H.heap[cid] = LObj(r0.items + ((self.ref(mk("prior", data=(lid, cid))), frozenset({"maybe", f"prior:{lid}"})),), r0.kind)
        self.st = save
        return H, mus

    # --- try / with
    def x_Try(self, s):
        fr = self.curframe()
        S0 = self.st.fork()
        nr = len(fr.raises)
        fr.trydepth += 1
        if not hasattr(fr, "trystates"):
            fr.trystates = []
        fr.trystates.append(self.st)
        outer = self.ev
        self.ev = []
        self.ctx.append(mk("try", data=self.uid()))
        self.exec_block(s.body)
        self.ctx.pop()
        bev = self.ev
        last = fr.trystates.pop()
        fr.trydepth -= 1
        N = self.st
        raised = fr.raises[nr:]
        caught_all = any(h.type is None or ast.unparse(h.type).split(".")[-1] in ("Exception", "BaseException")
                         for h in s.handlers)
        del fr.raises[nr:]
        hev = []
        out = None
        names = [self.handler_names(h) for h in s.handlers]
        exc_any = mk("exc", data=self.uid())
        uncaught = []
        for (pc, nm, stt) in raised:
            if not any(ns is None or nm in ns or nm == "reraise" for ns in names):
                uncaught.append((pc, nm, stt))
        fr.raises.extend(uncaught)
        if N is not None and s.orelse:
            self.ev = []
            self.st = N
            self.exec_block(s.orelse)
            bev = bev + self.ev
            N = self.st
        for h, ns in zip(s.handlers, names):
            ent = None
            for (pc, nm, stt) in raised:
                if ns is None or nm in ns or nm == "reraise":
                    ent = self.join(pc, stt, ent)
            base = self.join(exc_any, S0, last if last is not None else N)
            ent = self.join(exc_any, ent, base) if ent is not None else base
            self.st = ent.fork()
            # facts established inside the try body need not hold
            self.st.facts = {k: v for k, v in self.st.facts.items() if S0.facts.get(k) == v}
            if h.name:
                self.setname(h.name, self.ref(mk("excval", data=exc_any.data)))
            self.ev = []
            hc = mk("handler", data=(exc_any.data, ast.unparse(h.type) if h.type else "*"))
            self.pc.append(hc)
            self.exec_block(h.body)
            self.pc.pop()
            hev.append(self.ev)
            out = self.join(hc, self.st, out)
        self.ev = outer
        self.ev.append(Node("try", {"loc": self.loc, "handlers": names}, [bev] + hev))
        self.st = self.join(exc_any, out, N) if out is not None else N
        if s.finalbody:
            live = self.st
            if live is None:
                self.st = S0.fork()
            self.exec_block(s.finalbody)
            if live is None:
                self.st = None
        return None

    x_TryStar = x_Try

    def handler_names(self, h):
        if h.type is None:
            return None
        if isinstance(h.type, ast.Tuple):
            ns = {ast.unparse(e).split(".")[-1] for e in h.type.elts}
        else:
            ns = {ast.unparse(h.type).split(".")[-1]}
        if ns & {"Exception", "BaseException"}:
            return None
        return ns

    def x_With(self, s):
        n = 0
        outer = self.ev
        self.ev = []
        terms = []
        for item in s.items:
            v = self.eval(item.context_expr)
            t = self.term(v)
            terms.append(t)
            self.event("with-enter", ctx=t)
            self.ctx.append(t)
            n += 1
            if item.optional_vars is not None:
                self.assign(item.optional_vars, self.lib.enter(v))
        self.exec_block(s.body)
        for _ in range(n):
            self.ctx.pop()
        if self.st is not None:
            for t in terms:
                self.event("with-exit", ctx=t)
        body = self.ev
        self.ev = outer
        self.ev.append(Node("with", {"ctx": terms, "loc": self.loc}, [body]))

    x_AsyncWith = x_With

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                self.unpack_star(t, v, star[0])
                return
            for e, x in zip(t.elts, self.unpack(v, n)):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            idx = self.evalidx(t.slice)
            self.setitem(obj, idx, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack_star(self, t, v, i):
        items = self.known_items(v)
        if items is not None and len(items) >= len(t.elts) - 1:
            k = len(t.elts) - 1 - i
            for e, x in zip(t.elts[:i], items[:i]):
                self.assign(e, x)
            mid = items[i: len(items) - k]
            self.assign(t.elts[i].value, self.newlist(mid))
            for e, x in zip(t.elts[i + 1:], items[len(items) - k:]):
                self.assign(e, x)
        else:
            for j, e in enumerate(t.elts):
                tgt = e.value if isinstance(e, ast.Starred) else e
                self.assign(tgt, self.ref(mk("getitem", (self.term(v), const(j))), None, self.origins(v)))

    def unpack(self, v, n):
        if isinstance(v, PhiV):
            v2 = self.dephi(v)
            if isinstance(v2, PhiV):
                A, B = self.unpack(v2.a, n), self.unpack(v2.b, n)
                return [self.joinval(v2.cond, a, b, self.st, self.st, self.st) for a, b in zip(A, B)]
            v = v2
        items = self.known_items(v, tuples_only=True)
        if items is not None:
            if len(items) == n:
                return items
            self.event("bad-unpack", have=len(items), want=n)
            return (items + [self.ref(mk("opaque", data=f"unpack{self.uid()}")) for _ in range(n)])[:n]
        return [self.lib.subscript(v, ConstV(i)) for i in range(n)]

    def setname(self, name, v):
        fr = self.curframe()
        fid = fr.fid
        meta = self.fmeta[fid]
        g = getattr(fr, "globals_", None)
        if g and name in g:
            self.st.frames[meta[2].fid][name] = v
            self.event("global-write", name=name, mod=meta[2].name)
            return
        nl = getattr(fr, "nonlocals", None)
        if nl and name in nl:
            p = meta[0]
            while p is not None:
                if name in self.st.frames.get(p, {}):
                    self.st.frames[p][name] = v
                    return
                p = self.fmeta[p][0]
        # comprehension frames: walrus binds outside - ignored
        self.st.frames[fid][name] = v

    def delname(self, name):
        self.st.frames[self.curframe().fid].pop(name, None)

    def getname(self, name):
        fid = self.curframe().fid
        first = True
        while fid is not None:
            parent, loc, mod = self.fmeta[fid]
            f = self.st.frames.get(fid, {})
            if name in f and (first or loc != "class"):
                v = f[name]
                if isinstance(v, PhiV):
                    v = self.resolve_phi(v)
                if isinstance(v, UnsetV):
                    self.event("unbound", name=name, definite=True)
                    return self.ref(mk("opaque", data=f"unbound:{name}:{self.uid()}"))
                if isinstance(v, PhiV):
                    self.checkbound(v, name)
                    v = self.dephi(v)
                return v
            if first and isinstance(loc, (set, frozenset)) and name in loc:
                self.event("unbound", name=name, definite=True)
                return self.ref(mk("opaque", data=f"unbound:{name}:{self.uid()}"))
            first = False
            fid = parent
        mod = self.fmeta[self.curframe().fid][2]
        if mod is not None and mod.fid is not None and name in self.st.frames.get(mod.fid, {}):
            return self.st.frames[mod.fid][name]
        if hasattr(builtins, name):
            return self.builtin(name)
        self.event("undefined-name", name=name)
        return self.ref(mk("opaque", data=f"undefined:{name}"))

    def builtin(self, name):
        if name in ("None", "True", "False"):
            return ConstV(getattr(builtins, name))
        if name == "Ellipsis":
            return ConstV(Ellipsis)
        return LibV("builtins." + name)

    def resolve_phi(self, v):
        while isinstance(v, PhiV):
            c = self.truth(v.cond)
            if c is None:
                return v
            v = v.a if c else v.b
        return v

    def checkbound(self, v, name):
        """maybe-unset value being read"""
        conds = []

        def go(x, pol):
            if isinstance(x, PhiV):
                c = self.truth(x.cond)
                if c is None:
                    return go(x.a, pol + [x.cond]) or go(x.b, pol + [lnot(x.cond)])
                return go(x.a if c else x.b, pol)
            if isinstance(x, UnsetV):
                conds.append(pol)
                return True
            return False
        go(v, [])
        for pol in conds:
            loopish = any(sub.op in ("ran", "brk", "exc", "handler") for c in pol for sub in [c, *c.args])
            self.event("maybe-unbound", name=name, conds=tuple(pol), loopish=loopish)

    def dephi(self, v):
        """drop Unset alternatives and merge simple ones"""
        if not isinstance(v, PhiV):
            return v
        c = self.truth(v.cond)
        if c is not None:
            return self.dephi(v.a if c else v.b)
        a, b = self.dephi(v.a), self.dephi(v.b)
        if isinstance(a, UnsetV):
            return b
        if isinstance(b, UnsetV):
            return a
        if a is v.a and b is v.b:
            if isinstance(a, (Ref, ConstV)) and isinstance(b, (Ref, ConstV)):
                return self.joinval(v.cond, a, b, self.st, self.st, self.st)
            return v
        return self.joinval(v.cond, a, b, self.st, self.st, self.st)

    # ------------------------------------------------------------------ attributes / items
    def findattr_class(self, info, name, after=None):
        return info.lookup(name, after)

    def getattr(self, v, name, quiet=False):
        if isinstance(v, PhiV):
            v = self.dephi(v)
        if isinstance(v, PhiV):
            return self.distribute(v, lambda x: self.getattr(x, name, quiet))
        if isinstance(v, ObjV):
            rec = self.st.heap[v.cid]
            if name in rec.fields:
                f = rec.fields[name]
                if isinstance(f, PhiV):
                    f = self.resolve_phi(f)
                    if isinstance(f, PhiV) and not quiet:
                        self.checkattr(f, name, rec.cls)
                        f = self.dephi(f)
                if isinstance(f, UnsetV):
                    self.event("attr-missing", name=name, cls=rec.cls.qual)
                    return self.ref(mk("opaque", data=f"noattr:{name}:{self.uid()}"))
                if not quiet and rec.cls.is_module() and any(isinstance(q, tuple) and q[0].endswith(".forward") for q in self.stack):
                    self.event("attr-read", cid=v.cid, name=name, v=f, cls=rec.cls.qual)
                if self.devices and rec.cls.is_module() and isinstance(f, Ref) and f.cid not in self.libmods:
                    reg = f.cid in self.parameters or (rec.cls.qual, name) in self.buffers
                    if reg and (v.cid, name) not in self.rawattrs:
                        return self.ref(mk("modtensor", (self.term(f),), data=(v.cid, name)))
                return f
            if name == "__class__":
                return ClsV(rec.cls)
            if name == "__dict__":
                return DictV(self.cell(DObj(dict(rec.fields), f"objdict:{v.cid}")))
            a, owner = rec.cls.lookup(name)
            if a is not None:
                if isinstance(a, FuncV):
                    if a.kind == "staticmethod":
                        return a
                    if a.kind == "classmethod":
                        return BoundV(a, ClsV(rec.cls))
                    if a.kind == "property":
                        return self.callv(BoundV(a, v), [], {})
                    return BoundV(a, v)
                return a
            if rec.cls.lib_bases():
                if rec.cls.is_module() and len(set(rec.cls.lib_bases())) == 1 and not self.mentioned(name):
                    self.libobjattr("module", name)
                return self.lib.objattr(v, name)
            self.event("attr-missing", name=name, cls=rec.cls.qual)
            return self.ref(mk("opaque", data=f"noattr:{rec.cls.name}.{name}"))
        if isinstance(v, SuperV):
            rec_cls = v.cls
            objcls = self.st.heap[v.obj.cid].cls if isinstance(v.obj, ObjV) else (
                v.obj.info if isinstance(v.obj, ClsV) else rec_cls)
            a, owner = objcls.lookup(name, after=rec_cls)
            if isinstance(a, FuncV):
                if a.kind == "staticmethod":
                    return a
                return BoundV(a, v.obj)
            if a is not None:
                return a
            return LibM(v, name)
        if isinstance(v, ClsV):
            a, owner = v.info.lookup(name)
            if a is not None:
                if isinstance(a, FuncV) and a.kind == "classmethod":
                    return BoundV(a, v)
                return a
            if name == "__name__":
                return ConstV(v.info.name)
            if v.info.lib_bases() or v.info.is_namedtuple():
                return LibM(v, name)
            self.event("attr-missing", name=name, cls=v.info.qual)
            return self.ref(mk("opaque", data=f"noattr:{v.info.name}.{name}"))
        if isinstance(v, ModV):
            self.load(v.mod.name)
            f = self.st.frames[v.mod.fid]
            if name in f:
                return f[name]
            if v.mod.name + "." + name in self.mods:
                return ModV(self.load(v.mod.name + "." + name))
            self.event("attr-missing", name=name, cls=v.mod.name)
            return self.ref(mk("opaque", data=f"noattr:{v.mod.name}.{name}"))
        if isinstance(v, LibV):
            return self.lib.libattr(v, name)
        if isinstance(v, FuncV):
            if name in ("__name__", "__qualname__"):
                return ConstV(v.qual.split(".")[-1])
            if name == "__doc__":
                return ConstV(ast.get_docstring(v.node) if not isinstance(v.node, ast.Lambda) else None)
            return self.ref(mk("attr", (self.term(v),), data=name))
        if isinstance(v, Ref):
            k = ("fld", v.cid, name)
            if k in self.st.heap:
                return self.st.heap[k]
            known = libnames.array_attrs()
            if known is not None and name not in known and not name.startswith("_") and self.lib.ndim_positive(self.term(v)):
                self.event("array-attr", name=name, term=self.term(v))
            self.libobjattr(self.objkind(self.term(v)), name)
            return self.lib.refattr(v, name)
        if isinstance(v, ListV) and getattr(self.st.heap.get(v.cid), "kind", None) == "list":
            self.libobjattr("list", name)
        elif isinstance(v, ConstV) and isinstance(v.v, str):
            self.libobjattr("string", name)
        return LibM(v, name)

    def objkind(self, t):
        """the kind of library object a term stands for, where its attributes are a closed set"""
        if t.op == "optres":
            return "optres"
        if t.op == "new:torch.optim":
            return "optimizer"
        if t.op.startswith("new:torch.optim.lr_scheduler"):
            return "scheduler"
        if t.op == "new:torch.utils.data.DataLoader":
            return "loader"
        if t in self.nprngs or self.kindfacts.get(t) == "generator":
            return "generator"
        return None

    def mentioned(self, name):
        """the package stores an attribute of this name, or spells the name in a string, somewhere"""
        if self._mentioned is None:
            out = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                        out.add(n.value)
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        out.add(n.id)
            self._mentioned = out
        return name in self._mentioned

    def libobjattr(self, kind, name):
        known = libnames.object_attrs(kind) if kind else None
        if known is not None and name not in known and not name.startswith("__"):
            self.event("array-attr", name=name, of=kind)

    def checkattr(self, v, name, cls):
        conds = []

        def go(x, pol):
            if isinstance(x, PhiV):
                c = self.truth(x.cond)
                if c is None:
                    go(x.a, pol + [x.cond])
                    go(x.b, pol + [lnot(x.cond)])
                else:
                    go(x.a if c else x.b, pol)
            elif isinstance(x, UnsetV):
                conds.append(pol)
        go(v, [])
        for pol in conds:
            loopish = any(sub.op in ("ran", "brk", "exc", "handler") for c in pol for sub in [c, *c.args])
            self.event("attr-maybe-missing", name=name, cls=cls.qual, conds=tuple(pol), loopish=loopish)

    def hasattr(self, v, name):
        """Term"""
        if isinstance(v, PhiV):
            v = self.dephi(v)
        if isinstance(v, PhiV):
            return phi(v.cond, self.hasattr(v.a, name), self.hasattr(v.b, name))
        if isinstance(v, ObjV):
            rec = self.st.heap[v.cid]
            if name in rec.fields:
                f = rec.fields[name]

                def go(x):
                    if isinstance(x, PhiV):
                        return phi(x.cond, go(x.a), go(x.b))
                    return FALSE if isinstance(x, UnsetV) else TRUE
                return go(f)
            a, o = rec.cls.lookup(name)
            if a is not None:
                return TRUE
            if rec.cls.lib_bases():
                return mk("hasattr", (self.term(v),), data=name)
            return FALSE
        return mk("hasattr", (self.term(v),), data=name)

    def setattr(self, obj, name, v, raw=False):
        """raw: past the class's own attribute protocol (__dict__, object.__setattr__)"""
        if isinstance(obj, PhiV):
            obj = self.dephi(obj)
        if isinstance(obj, PhiV):
            c = obj.cond
            s0 = self.st
            self.st = s0.fork()
            self.setattr(obj.a, name, v, raw)
            A = self.st
            self.st = s0.fork()
            self.setattr(obj.b, name, v, raw)
            self.st = self.join(c, A, self.st)
            return
        if isinstance(obj, ObjV):
            rec = self.st.heap[obj.cid]
            a, owner = rec.cls.lookup(name)
            if raw:
                self.rawattrs.add((obj.cid, name))
            else:
                self.rawattrs.discard((obj.cid, name))
            if isinstance(a, FuncV) and a.kind == "property" and not raw:
                self.event("setattr", cid=obj.cid, cls=rec.cls.qual, name=name, value=self.term(v), v=v)
                return
            f = dict(rec.fields)
            old = f.get(name)
            f[name] = v
            self.st.heap[obj.cid] = OObj(rec.cls, f)
            self.event("setattr", cid=obj.cid, cls=rec.cls.qual, name=name, value=self.term(v), v=v, old=old)
        elif isinstance(obj, Ref):
            self.st.heap[("fld", obj.cid, name)] = v
            self.event("setattr-opaque", target=self.term(obj), cid=getattr(obj, "cid", None), name=name, value=self.term(v), origins=self.origins(obj))
        elif isinstance(obj, ClsV):
            self.event("setattr-class", cls=obj.info.qual, name=name)
            obj.info.attrs[name] = v
        elif isinstance(obj, ModV):
            self.st.frames[obj.mod.fid][name] = v
        else:
            self.event("setattr-other", target=self.term(obj), name=name)

    def distribute(self, v, fn):
        """apply fn to each alternative of a PhiV under its condition, join results"""
        s0, outer = self.st, self.ev
        out = []
        for pol, x in ((True, v.a), (False, v.b)):
            if isinstance(x, UnsetV):
                continue
            self.st = s0.fork()
            self.ev = []
            self.assume(v.cond, pol)
            self.pc.append(v.cond if pol else lnot(v.cond))
            r = fn(x)
            self.pc.pop()
            out.append((r, self.st, self.ev))
        self.ev = outer
        if not out:
            self.st = s0
            return self.ref(mk("opaque", data=f"unset{self.uid()}"))
        if len(out) == 1:
            r, self.st, e = out[0]
            self.ev.extend(e)
            return r
        (ra, sa, ea), (rb, sb, eb) = out
        self.ev.append(Node("if", {"cond": v.cond, "loc": self.loc}, [ea, eb]))
        if sa is None:
            self.st = sb
            return rb
        if sb is None:
            self.st = sa
            return ra
        self.st = self.join(v.cond, sa, sb)
        return self.joinval(v.cond, ra, rb, self.st, sa, sb)

    def getitem(self, v, idx, load=False):
        return self.lib.subscript(v, idx)

    def setitem(self, obj, idx, v, aug=None):
        self.lib.store(obj, idx, v, aug)

    def write(self, ref, newterm, how, idx=None, value=None):
        """overwrite the content of an array cell (in-place change)"""
        cid = ref.cid
        rec = self.st.heap[cid]
        self.event("mutate", origins=frozenset(self.origins(ref)), how=how, idx=idx, term=newterm, value=value)
        self._write(cid, newterm, None)

    def _write(self, cid, newterm, idxchain):
        rec = self.st.heap[cid]
        if not isinstance(rec, Arr):
            return
        if rec.base is not None:
            bcid, desc = rec.base
            if desc[0] == "either":
                _, c, other = desc
                self._write(bcid, phi(c, newterm, self.content(bcid)), None)
                if isinstance(other, int):
                    self._write(other, phi(c, self.content(other), newterm), None)
                return
            old = self.content(bcid)
            nt = self.lib.viewstore(old, desc, newterm)
            self._write(bcid, nt, None)
            return
        old = rec.term
        self.st.heap[cid] = Arr(newterm, None, rec.alias)
        for o in rec.alias:
            r2 = self.st.heap.get(o)
            if isinstance(r2, Arr) and r2.base is None and o != cid:
                self.st.heap[o] = Arr(mk("phi", (mk("mayalias", data=(cid, o)), newterm, r2.term)), None, r2.alias)

    # ------------------------------------------------------------------ iteration
    def known_items(self, v, tuples_only=False):
        if isinstance(v, PhiV):
            v = self.dephi(v)
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, ListV):
            rec = self.st.heap[v.cid]
            if all(not c for _, c in rec.items) and rec.kind in ("list", "deque", "tuple", "set", "ModuleList", "Sequential"):
                return [x for x, _ in rec.items]
            return None
        if isinstance(v, ObjV):
            rec = self.st.heap[v.cid]
            if rec.cls.is_namedtuple():
                return [rec.fields[n] for n in rec.cls.ann if n in rec.fields]
            return None
        if isinstance(v, ConstV) and isinstance(v.v, (str, tuple)) and not tuples_only:
            return [ConstV(x) for x in v.v] if len(v.v) <= UNROLL else None
        if isinstance(v, ConstV) and isinstance(v.v, tuple):
            return [ConstV(x) for x in v.v]
        if isinstance(v, IterV):
            if v.kind == "zip":
                ks = [self.known_items(x) for x in v.data]
                if all(k is not None for k in ks) and ks:
                    return [TupV(t) for t in zip(*ks)]
                # one known finite list bounds the length
                return None
            if v.kind == "enumerate":
                k = self.known_items(v.data[0])
                st = v.data[1]
                if k is not None and isinstance(st, int):
                    return [TupV([ConstV(i + st), x]) for i, x in enumerate(k)]
            if v.kind == "rev":
                k = self.known_items(v.data)
                if k is not None:
                    return k[::-1]
            if v.kind == "map":
                ks = [self.known_items(x) for x in v.data[1]]
                if all(k is not None for k in ks) and ks and len(ks[0]) <= UNROLL:
                    return [self.callv(v.data[0], list(t), {}) for t in zip(*ks)]
            if v.kind == "gen":
                if all(not c for _, c in v.data["items"]):
                    return [x for x, _ in v.data["items"]]
            return None
        if isinstance(v, DictV):
            rec = self.st.heap[v.cid]
            if not rec.extra and isinstance(rec.kind, str):
                return [ConstV(k) if not isinstance(k, T.Term) else self.val(k) for k in rec.entries]
            return None
        if isinstance(v, Ref):
            t = self.term(v)
            if t.op == "range" and all(T.isnum(a) for a in t.args):
                r = range(*[int(T.cval(a)) for a in t.args])
                if len(r) <= UNROLL:
                    return [ConstV(i) for i in r]
            if t.op in ("triu_indices", "tril_indices") or t.op in ("nonzero", "where1") and len(t.args) == 1:
                n = 2 if t.op.startswith("tri") else self.lib.ndim(t.args[0])
                if n:
                    return [self.lib.subscript(v, ConstV(i)) for i in range(n)]
            return None
        return None

    def elem(self, v, lid=None):
        """generic element of an iterable"""
        depth = len(self.loops)
        if isinstance(v, PhiV):
            v = self.dephi(v)
        if isinstance(v, PhiV):
            a, b = self.elem(v.a, lid), self.elem(v.b, lid)
            return self.joinval(v.cond, a, b, self.st, self.st, self.st)
        if isinstance(v, TupV):
            return self.joinmany(list(v.items), depth)
        if isinstance(v, ListV):
            rec = self.st.heap[v.cid]
            return self.joinmany([x for x, _ in rec.items], depth) if rec.items else \
                self.ref(mk("elem", (self.term(v),), data=depth))
        if isinstance(v, DictV):
            rec = self.st.heap[v.cid]
            ks = [ConstV(k) if not isinstance(k, T.Term) else self.val(k) for k in rec.entries] + \
                [self.val(k) for k, _, _ in rec.extra]
            return self.joinmany(ks, depth) if ks else self.ref(mk("elem", (self.term(v),), data=depth))
        if isinstance(v, IterV):
            if v.kind == "zip":
                return TupV([self.elem(x, lid) for x in v.data])
            if v.kind == "enumerate":
                ix = mk("index", (self.term(v.data[0]),), data=depth)
                st = v.data[1]
                if st != 0 or not isinstance(st, int):
                    ix = self.lib.binop_term("add", ix, st if isinstance(st, T.Term) else const(st))
                return TupV([self.ref(ix), self.elem(v.data[0], lid)])
            if v.kind == "map":
                return self.callv(v.data[0], [self.elem(x, lid) for x in v.data[1]], {})
            if v.kind == "gen":
                return self.joinmany([x for x, _ in v.data["items"]], depth)
            if v.kind == "rev":
                return self.elem(v.data, lid)
            if v.kind == "filter":
                e = self.elem(v.data[1], lid)
                if v.data[0] is not None and not (isinstance(v.data[0], ConstV)):
                    self.callv(v.data[0], [e], {})
                return e
            if v.kind == "poolmap":
                self.event("consume", term=v.data["term"], by="iteration")
                return self.ref(mk("elem", (v.data["term"],), data=depth))
        if isinstance(v, ConstV) and isinstance(v.v, (tuple, list, str)) and len(v.v):
            return self.joinmany([ConstV(x) for x in v.v], depth)
        t = self.term(v)
        return self.lib.elem_of(v, t, depth)

    def joinmany(self, xs, depth):
        if not xs:
            return self.ref(mk("opaque", data=f"empty{self.uid()}"))
        r = xs[-1]
        for x in reversed(xs[:-1]):
            c = mk("pick", data=self.uid())
            r = self.joinval(c, x, r, self.st, self.st, self.st)
        return r

    # ------------------------------------------------------------------ lists
    def newlist(self, items, kind="list", ctxs=None):
        return ListV(self.cell(LObj([(x, frozenset() if ctxs is None else ctxs[i]) for i, x in enumerate(items)], kind)))

    # ------------------------------------------------------------------ expressions
    def cond(self, e):
        v = self.eval(e)
        if self.st is None:
            return FALSE
        return self.truthterm(v)

    def truthterm(self, v):
        if isinstance(v, PhiV):
            v = self.dephi(v)
        if isinstance(v, ConstV):
            return const(bool(v.v))
        if isinstance(v, (FuncV, LibV, ClsV, BoundV)):
            return TRUE
        if isinstance(v, (ListV, DictV)):
            return mk("nonempty", (self.term(v),)) if self.truth(self.term(v)) is None else const(self.truth(self.term(v)))
        if isinstance(v, ObjV):
            rec = self.st.heap[v.cid]
            a, _ = rec.cls.lookup("__bool__")
            if a is None and rec.cls.lookup("__len__")[0] is None:
                return TRUE
        t = self.term(v)
        tv = self.truth(t)
        if tv is not None:
            return const(tv)
        return self.lib.boolterm(t)

    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if hasattr(e, "lineno"):
            self.loc = (self.loc[0], e.lineno, self.loc[2])
            T.CURRENT_LOC = self.loc
        if m is None:
            self.unsupported[type(e).__name__] = self.unsupported.get(type(e).__name__, 0) + 1
            return self.ref(mk("opaque", data=f"expr{self.uid()}"))
        if self.st is None:
            return ConstV(None)
        return m(e)

    def e_Constant(self, e):
        return ConstV(e.value)

    def e_Name(self, e):
        return self.getname(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                k = self.known_items(v)
                if k is None:
                    self.star_unknown = True
                    return self.ref(mk("startuple", [self.term(v)] + [self.term(y) for y in out]), None, self.origins(v))
                out.extend(k)
            else:
                out.append(self.eval(x))
        return TupV(out)

    def e_List(self, e):
        out, ctx = [], []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                k = self.known_items(v)
                if k is None:
                    out.append(self.elem(v))
                    ctx.append(frozenset({"star"}))
                else:
                    out.extend(k)
                    ctx.extend([frozenset()] * len(k))
            else:
                out.append(self.eval(x))
                ctx.append(frozenset())
        return self.newlist(out, "list", ctx)

    def e_Set(self, e):
        vs = [self.eval(x) for x in e.elts]
        for v in vs:
            self.event("hash", value=self.term(v), v=v)
        return self.newlist(vs, "set")

    def e_Dict(self, e):
        ent, extra = {}, []
        for k, x in zip(e.keys, e.values):
            if k is None:
                v = self.eval(x)
                if isinstance(v, DictV):
                    r = self.st.heap[v.cid]
                    ent.update(r.entries)
                    extra.extend(r.extra)
                continue
            kv = self.eval(k)
            vv = self.eval(x)
            key = self.dictkey(kv)
            ent[key] = vv
        return DictV(self.cell(DObj(ent, "dict", extra)))

    def dictkey(self, kv):
        if isinstance(kv, ConstV):
            try:
                hash(kv.v)
                return kv.v
            except TypeError:
                pass
        return self.term(kv)

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(const(str(p.value)))
            else:
                v = self.eval(p.value)
                if isinstance(v, ConstV) and p.format_spec is None:
                    parts.append(const(str(v.v)))
                else:
                    parts.append(self.lib.tostr(self.term(v)))
                if p.format_spec is not None:
                    self.eval(p.format_spec)
        return self.val(T.strcat(parts))

    def e_FormattedValue(self, e):
        return self.val(self.lib.tostr(self.term(self.eval(e.value))))

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        if self.st is None:
            return ConstV(None)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, PhiV):
            a = self.dephi(a)
        if isinstance(b, PhiV):
            b = self.dephi(b)
        return self.lib.binop(op, a, b)

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            c = self.cond(e.operand)
            return self.val(lnot(c)) if self.truth(c) is None else ConstV(not self.truth(c))
        v = self.eval(e.operand)
        if isinstance(e.op, ast.USub):
            if isinstance(v, ConstV) and isinstance(v.v, (int, float)):
                return ConstV(-v.v)
            return self.val(T.neg(self.term(v)))
        if isinstance(e.op, ast.UAdd):
            return v
        t = self.term(v)
        if t.op == "invert":
            return self.val(t.args[0])
        return self.val(mk("invert", (t,)))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        acc = None
        vals = []
        npc = len(self.pc)
        s0facts = dict(self.st.facts)
        for x in e.values:
            v = self.eval(x)
            vals.append(v)
            c = self.truthterm(v)
            acc = c if acc is None else (land(acc, c) if isand else lor(acc, c))
            tv = self.truth(c)
            if tv is (not isand):
                break
            if tv is None:
                g = c if isand else lnot(c)
                self.pc.append(g)
                self.assume(c, isand)
        del self.pc[npc:]
        if self.st is not None:
            self.st.facts = s0facts
        tv = self.truth(acc)
        # value semantics: for non-boolean operands return the operand value when decidable
        if tv is not None and all(isinstance(v, ConstV) for v in vals):
            r = vals[0].v
            for v in vals[1:]:
                r = (r and v.v) if isand else (r or v.v)
            return ConstV(r)
        if not isand and len(vals) == 2:
            c0 = self.truthterm(vals[0])
            if self.truth(c0) is False:
                return vals[1]
            if not self.lib.boolish(self.term(vals[0])):
                return self.joinval(c0, vals[0], vals[1], self.st, self.st, self.st)
        if len(vals) == 1:
            return vals[0]
        return self.val(acc)

    def e_Compare(self, e):
        left = self.eval(e.left)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            t = self.lib.compare(type(op), left, right)
            acc = t if acc is None else land(acc, t)
            left = right
        if acc.op != "const":
            tv = self.truth(acc)
            if tv is not None and acc.op in ("is", "isnot", "in", "notin"):
                return ConstV(tv)
        return self.val(acc)

    def e_IfExp(self, e):
        c = self.cond(e.test)
        tv = self.truth(c)
        if tv is not None:
            return self.eval(e.body if tv else e.orelse)
        s0, outer = self.st, self.ev
        out = []
        for pol, x in ((True, e.body), (False, e.orelse)):
            self.st = s0.fork()
            self.ev = []
            self.assume(c, pol)
            self.pc.append(c if pol else lnot(c))
            v = self.eval(x)
            self.pc.pop()
            out.append((v, self.st, self.ev))
        self.ev = outer
        (va, sa, ea), (vb, sb, eb) = out
        if ea or eb:
            self.ev.append(Node("if", {"cond": c, "loc": self.loc}, [ea, eb]))
        self.st = self.join(c, sa, sb)
        if sa is None:
            return vb
        if sb is None:
            return va
        return self.joinval(c, va, vb, self.st, sa, sb)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.term(self.eval(x))
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def evalidx(self, e):
        return self.eval(e)

    def e_Subscript(self, e):
        v = self.eval(e.value)
        i = self.evalidx(e.slice)
        if self.st is None:
            return ConstV(None)
        return self.getitem(v, i)

    def e_Lambda(self, e):
        return self.mkfunc(e, self.qualname("<lambda>"))

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else ConstV(None)
        fr = self.curframe()
        ctx = frozenset(f"loop:{l}" for l in self.loops[getattr(fr, "loopbase", 0):])
        if fr.loopstack and not ctx:
            ctx = frozenset({"loop"})
        if len(self.pc) > fr.pcbase:
            ctx = ctx | {"maybe"}
        fr.yields.append((v, ctx))
        self.event("yield", value=self.term(v), v=v, gen=fr.fid)
        return ConstV(None)

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        fr = self.curframe()
        k = self.known_items(v)
        if k is not None:
            fr.yields.extend((x, frozenset()) for x in k)
        else:
            fr.yields.append((self.elem(v), frozenset({"loop"})))
        return ConstV(None)

    # comprehensions
    def _comp(self, e, kind):
        parent = self.curframe()
        mod = self.fmeta[parent.fid][2]
        fid = self.newframe(parent.fid, None, mod)
        fr = Frame(fid, parent.qual, parent.pcbase)
        fr.returns, fr.raises, fr.yields = parent.returns, parent.raises, parent.yields
        fr.trydepth = 0
        self.frames.append(fr)
        out = []    # (value(s), ctx)

        def rec(gi, ctx):
            if gi == len(e.generators):
                if kind == "dict":
                    out.append((self.eval(e.key), self.eval(e.value), ctx))
                else:
                    out.append((self.eval(e.elt), ctx))
                return
            g = e.generators[gi]
            it = self.eval(g.iter)
            if self.st is None:
                return
            items = self.known_items(it)
            if items is not None and len(items) <= UNROLL:
                for x in items:
                    if self.st is None:
                        return
                    self.assign(g.target, x)
                    one(gi, g, ctx)
                return
            self._lid += 1
            lid = self._lid
            self.loopiter[lid] = self.term(it)
            self.loops.append(lid)
            outer, self.ev = self.ev, []
            self.pc.append(mk("inloop", data=lid))
            el = self.elem(it, lid)
            self.assign(g.target, el)
            one(gi, g, ctx | {f"loop:{lid}"})
            self.pc.pop()
            self.loops.pop()
            body = self.ev
            self.ev = outer
            self.ev.append(Node("loop", {"lid": lid, "kind": "comp", "iter": self.term(it) if self.st is not None else None, "cond": None,
                                         "loc": self.loc}, [body]))

        def one(gi, g, ctx):
            npc = len(self.pc)
            facts0 = dict(self.st.facts)
            dead = False
            for test in g.ifs:
                c = self.cond(test)
                tv = self.truth(c)
                if tv is False:
                    dead = True
                    break
                if tv is None:
                    self.pc.append(c)
                    self.assume(c, True)
                    k = f"filter:{self.uid()}"
                    self.filters[k] = c
                    ctx = ctx | {"maybe", k}
            if not dead:
                rec(gi + 1, ctx)
            del self.pc[npc:]
            if self.st is not None:
                self.st.facts = facts0

        rec(0, frozenset())
        self.frames.pop()
        return out

    def e_ListComp(self, e):
        out = self._comp(e, "list")
        return self.newlist([v for v, _ in out], "list", [c for _, c in out])

    def e_SetComp(self, e):
        out = self._comp(e, "set")
        for v, c in out:
            self.event("hash", value=self.term(v), v=v)
        return self.newlist([v for v, _ in out], "set", [c for _, c in out])

    def e_GeneratorExp(self, e):
        out = self._comp(e, "gen")
        return IterV("gen", {"items": out})

    def e_DictComp(self, e):
        out = self._comp(e, "dict")
        ent, extra = {}, []
        for k, v, c in out:
            if not c:
                ent[self.dictkey(k)] = v
            else:
                extra.append((self.term(k), v, c))
        return DictV(self.cell(DObj(ent, "dict", extra)))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.mksuper(e)
        f = self.eval(e.func)
        args, kw, opaque = [], {}, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                k = self.known_items(v)
                if k is not None:
                    args.extend(k)
                else:
                    args.append(self.ref(mk("star", (self.term(v),)), None, self.origins(v)))
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, PhiV):
                    v = self.dephi(v)
                if isinstance(v, DictV):
                    rec = self.st.heap[v.cid]
                    for kk, vv in rec.entries.items():
                        if isinstance(kk, str):
                            kw[kk] = vv
                    if isinstance(rec.kind, tuple) and rec.kind[0] == "opaque":
                        opaque.append((rec.kind[1], rec.kind[2]))
                else:
                    opaque.append((self.term(v), frozenset()))
            else:
                kw[k.arg] = v
        if self.st is None:
            return ConstV(None)
        self.loc = (self.loc[0], e.lineno, self.loc[2])
        r = self.callv(f, args, kw, opaque)
        return r

    def mksuper(self, e):
        if e.args:
            c = self.eval(e.args[0])
            o = self.eval(e.args[1])
            if isinstance(c, ClsV):
                return SuperV(o, c.info)
        fr = self.curframe()
        f = getattr(fr, "func", None)
        i = len(self.frames) - 1
        while i >= 0 and (f is None or f.cls is None):
            f = getattr(self.frames[i], "func", None)
            i -= 1
        if f is not None and f.cls is not None:
            names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
            fid = self.frames[i + 1].fid if f is not getattr(fr, "func", None) else fr.fid
            o = self.st.frames[fid].get(names[0]) if names else None
            if o is not None:
                return SuperV(o, f.cls)
        return self.ref(mk("opaque", data="super"))

    def callv(self, f, args, kw, opaque=()):
        self.stats["calls"] += 1
        if isinstance(f, PhiV):
            f = self.dephi(f)
        if isinstance(f, PhiV):
            return self.distribute(f, lambda x: self.callv(x, args, kw, opaque))
        if isinstance(f, BoundV):
            return self.callv(f.func, [f.selfv] + list(args), kw, opaque)
        if isinstance(f, PartialV):
            k = dict(f.kw)
            k.update(kw)
            return self.callv(f.func, list(f.args) + list(args), k, opaque)
        if isinstance(f, FuncV):
            return self.callfunc(f, args, kw, opaque)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kw, opaque)
        if isinstance(f, LibV):
            return self.lib.call(f.name, list(args), kw)
        if isinstance(f, LibM):
            return self.lib.method(f.recv, f.name, list(args), kw)
        if isinstance(f, ObjV):
            rec = self.st.heap[f.cid]
            a, _ = rec.cls.lookup("__call__")
            if a is not None:
                return self.callfunc(a, [f] + list(args), kw, opaque)
            fw, _ = rec.cls.lookup("forward")
            if fw is not None and rec.cls.lib_bases():
                return self.callfunc(fw, [f] + list(args), kw, opaque)
            self.event("not-callable", cls=rec.cls.qual)
            return self.ref(mk("opaque", data=f"call{self.uid()}"))
        if isinstance(f, Ref):
            return self.lib.apply(f, list(args), kw)
        if isinstance(f, ListV) and self.st.heap[f.cid].kind == "Sequential":
            x = args[0]
            for m, _ in self.st.heap[f.cid].items:
                x = self.callv(m, [x], {})
            return x
        self.event("not-callable", cls=repr(f))
        return self.ref(mk("opaque", data=f"call{self.uid()}"))

    def instantiate(self, cv, args, kw, opaque=()):
        info = cv.info
        obj = ObjV(self.cell(OObj(info, {})))
        self.event("new", cls=info.qual, cid=obj.cid)
        if info.is_namedtuple() and info.lookup("__init__")[0] is None:
            names = info.ann
            f = {}
            for n, v in zip(names, args):
                f[n] = v
            for k, v in kw.items():
                f[k] = v
            for n in names:
                if n not in f and n in info.attrs:
                    f[n] = info.attrs[n]
            missing = [n for n in names if n not in f]
            if (missing or len(args) > len(names)) and not opaque:
                self.event("call-arity", func=info.qual, problem=f"missing {missing}")
            self.st.heap[obj.cid] = OObj(info, f)
            return obj
        init, owner = info.lookup("__init__")
        if init is not None:
            self.callfunc(init, [obj] + list(args), kw, opaque)
        elif (args or kw) and not info.lib_bases():
            self.event("call-arity", func=info.qual, problem="constructor takes no arguments")
        elif info.lib_bases() and (args or kw):
            self.lib.libinit(obj, args, kw)
        return obj

    _locals_cache = {}

    def locals_of(self, node):
        key = id(node)
        c = Engine._locals_cache.get(key)
        if c is not None and c[0] is node:
            return c[1:]
        names, glob, nonl, isgen = set(), set(), set(), False
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)

        def walk(n, top=False):
            nonlocal isgen
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
                names.add(n.name)
                return
            if isinstance(n, ast.Lambda) and not top:
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for sub in ast.walk(n):
                    if isinstance(sub, ast.NamedExpr) and isinstance(sub.target, ast.Name):
                        names.add(sub.target.id)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add((al.asname or al.name).split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            if isinstance(n, ast.Global):
                glob.update(n.names)
            if isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                isgen = True
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                names.add(n.name)
            for ch in ast.iter_child_nodes(n):
                walk(ch)

        body = node.body if isinstance(node.body, list) else [node.body]
        for b in body:
            walk(b)
        names -= glob | nonl
        r = (frozenset(names), frozenset(glob), frozenset(nonl), isgen)
        Engine._locals_cache[key] = (node,) + r
        return r

    def bind(self, f, args, kw, opaque):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        b = {}
        extra = list(args[len(pos):])
        for n, v in zip(pos, args):
            b[n] = v
        starred = [v for v in args if isinstance(v, Ref) and self.term(v).op == "star"]
        kwextra = {}
        problems = []
        for k, v in kw.items():
            if k in pos or k in kwo:
                if k in b:
                    problems.append(f"multiple values for '{k}'")
                b[k] = v
            elif a.kwarg:
                kwextra[k] = v
            else:
                problems.append(f"unexpected keyword '{k}'")
        given = set(b)
        for n in pos + kwo:
            if n in b:
                continue
            d = f.defaults.get(n, f.kwdefaults.get(n))
            ok = None
            for t, excl in opaque:
                if n not in excl and n not in kw:
                    ok = t
            if ok is not None:
                g = self.ref(mk("kwget", (ok,), data=n))
                if d is None:
                    b[n] = g
                else:
                    b[n] = self.joinval(mk("kwhas", (ok,), data=n), g, d, self.st, self.st, self.st)
            elif d is not None:
                b[n] = d
            else:
                if not starred:
                    problems.append(f"missing argument '{n}'")
                b[n] = self.ref(mk("opaque", data=f"missing:{n}"))
        if a.vararg:
            b[a.vararg.arg] = TupV(extra)
        elif extra and not starred:
            problems.append(f"{len(args)} positional arguments given, {len(pos)} accepted")
        if a.kwarg:
            kind = "dict"
            if opaque:
                t, excl = opaque[0]
                kind = ("opaque", t, frozenset(excl) | set(pos) | set(kwo) | set(kw))
            b[a.kwarg.arg] = DictV(self.cell(DObj(kwextra, kind)))
        if problems:
            self.event("call-arity", func=f.qual, problem="; ".join(problems))
        return b

    def callfunc(self, f, args, kw, opaque=()):
        node = f.node
        depth = sum(1 for x in self.frames if getattr(x, "func", None) is not None and x.func.node is node)
        if depth >= MAXREC or len(self.frames) > MAXDEPTH:
            self.event("reccall", func=f.qual, args=tuple(self.term(x) for x in args))
            return self.ref(mk("rec", [self.term(x) for x in args], data=(f.qual, self.uid())))
        b = self.bind(f, args, kw, opaque)
        if args and isinstance(args[0], ObjV) and getattr(node, "name", "") == "forward":
            rec = self.st.heap[args[0].cid]
            if rec.cls.lib_bases():
                self.event("forward", cid=args[0].cid, cls=rec.cls.qual, args=tuple(self.term(x) for x in list(args[1:]) + list(kw.values())))
        nctx = len(self.ctx)
        self.ctx += [mk("no_grad") for d in getattr(node, "decorator_list", ()) if self.gradless(d)]
        try:
            r = self.callbody(f, node, b)
            if args and isinstance(args[0], ObjV) and getattr(node, "name", "") == "forward" and self.st is not None and r is not None:
                self.event("forwarded", cid=args[0].cid, args=tuple(self.term(x) for x in list(args[1:]) + list(kw.values())), result=self.term(r))
            return r
        finally:
            del self.ctx[nctx:]

    def callbody(self, f, node, b):
        names, glob, nonl, isgen = self.locals_of(node)
        fid = self.newframe(f.fid, names, f.mod)
        self.st.frames[fid].update(b)
        fr = Frame(fid, f.qual, len(self.pc))
        fr.func = f
        fr.globals_, fr.nonlocals = glob, nonl
        fr.loopbase = len(self.loops)
        fr.trystates = []
        if node.args.args or node.args.kwonlyargs:
            for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
                self.annot_kind(x, b.get(x.arg), f)
        self.stats["inlined"].add(f.qual)
        saveloc = self.loc
        outer, self.ev = self.ev, []
        self.frames.append(fr)
        self.stack.append((f.qual, saveloc))
        self.loc = (f.mod.path if f.mod else "?", getattr(node, "lineno", 0), f.qual)
        if isinstance(node, ast.Lambda):
            v = self.eval(node.body)
            if self.st is not None:
                fr.returns.append((TRUE, v, self.st))
                self.st = None
        else:
            self.exec_block(node.body)
            if self.st is not None:
                fr.returns.append((self.pcsince(fr.pcbase), ConstV(None), self.st))
                self.event("return", qual=f.qual, value=NONE, implicit=True)
                self.st = None
        self.stack.pop()
        self.frames.pop()
        body, self.ev = self.ev, outer
        self.loc = saveloc
        self.ev.append(Node("call", {"qual": f.qual, "loc": saveloc, "args": b,
                                     "fid": fid, "node": node, "gen": isgen}, [body]))
        # raises propagate
        up = self.frames[-1] if self.frames else None
        if up is not None:
            for pc, nm, stt in fr.raises:
                up.raises.append((land(self.pcsince(up.pcbase), pc), nm, stt))
        self.last_raises = fr.raises
        self.last_returns = fr.returns
        if not fr.returns:
            self.st = None
            return ConstV(None)
        if isgen:
            st = None
            for pc, v, s in fr.returns:
                st = s if st is None else self.join(pc, s, st)
            self.st = st
            self.dropframe(fid)
            return IterV("gen", {"items": list(fr.yields)})
        rets = fr.returns
        val, st = rets[-1][1], rets[-1][2]
        for pc, v, s in reversed(rets[:-1]):
            j = self.join(pc, s, st)
            val = self.joinval(pc, v, val, j, s, st)
            st = j
        # normal completion means none of the raising conditions held
        self.st = st
        return val

    def dropframe(self, fid):
        pass

    ARRAY_HINTS = ("ndarray", "NDArray", "ArrayLike", "np.array", "numpy array", "Tensor")

    def annot_kind(self, arg, v, f):
        if not isinstance(v, Ref) or v.cid in self.kinds:
            return
        ann = ast.unparse(arg.annotation) if arg.annotation is not None else ""
        k = None
        if any(h in ann for h in self.ARRAY_HINTS):
            k = "ndarray"
        elif ann in ("int", "float", "str", "bool"):
            k = ann
        elif "Generator" in ann:
            k = "generator"
        if k:
            self.kinds[v.cid] = k

    # ------------------------------------------------------------------ entry points
    def run(self, fn):
        """run a scenario on a fork of the loaded base state; returns events"""
        base = self.st
        self.st = base.fork()
        self.ev = []
        self.pc, self.ctx, self.loops, self.stack = [], [], [], []
        fr = Frame(self.newframe(None, None, None), "<scenario>", 0)
        fr.trystates = []
        self.frames = [fr]
        self.loc = ("<scenario>", 0, "<scenario>")
        self.root_frame = fr
        try:
            r = fn(self)
            return r, self.ev, self.st
        finally:
            self.final = self.st
            self.st = base
            self.frames = []

    def lookup(self, dotted):
        mod, _, rest = dotted.rpartition(".")
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.mods:
                self.load(m)
                v = None
                cur = self.st.frames[self.mods[m].fid]
                for p in parts[i:]:
                    if isinstance(v, ClsV):
                        v = v.info.lookup(p)[0]
                    else:
                        v = cur.get(p)
                    if v is None:
                        return None
                return v
        return None


BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv",
    ast.Mod: "mod", ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or",
    ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift",
}
