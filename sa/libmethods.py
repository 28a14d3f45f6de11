"""Methods and attributes of library values (arrays, tensors, generators, modules, containers, strings, files)."""
from __future__ import annotations

from . import terms as T
from .terms import mk, const, phi, lnot, land, lor, cval, NONE, TRUE, FALSE
from .values import *
from . import libfuncs as F
from .libfuncs import A, UN, BIN, RED, DRAWS, dtypeterm, astype

GENOPS = ("rng", "torch-gen")


def refattr(L, v, name):
    e = L.e
    t = L.t(v)
    if name in ("T", "mT", "H"):
        return F.transpose_val(L, v)
    if name == "shape":
        s = L.shapeof(t)
        return TupV([L.fresh(x) for x in s.args]) if s.op == "tuple" else L.newref(s)
    if name == "size" and t.op not in ("new",):
        return L.fresh(L.size(t))
    if name == "ndim":
        n = L.ndim(t)
        return ConstV(n) if n is not None else L.newref(mk("ndim", (t,)))
    if name == "dtype":
        return L.newref(mk("dtype", (t,)))
    if name in ("data",):
        e.event("detach", term=t, cid=v.cid, origins=frozenset(e.origins(v)))
        return e.ref(t, (v.cid, ("same",)), e.origins(v))
    if name in ("real",):
        return v
    if name in ("pvalue", "p_value"):
        return L.newref(mk("pvalue", (t,)))
    if name in ("x", "fun", "success", "message", "nit", "jac", "hess_inv", "status") and t.op == "optres":
        if name == "x":
            k = ("fld", v.cid, "x")
            if k in e.st.heap:
                return e.st.heap[k]
            return L.newref(mk("optx", t.args[1:], data=t.data))
        return L.newref(mk("optattr", (t,), data=name))
    if name == "flat":
        return e.ref(mk("ravel", (t,)), None, e.origins(v))
    if name in ("parent", "name", "stem", "suffix") and t.op in ("path", "pathjoin"):
        return L.newref(mk("attr", (t,), data=name))
    if name in METHODS or name in UN or name in BIN or name in RED or name in DRAWS or name in KNOWN_METHODS or \
            (name.endswith("_") and not name.startswith("_")):
        return LibM(v, name)
    if t.op == "dist":
        return LibM(v, name)
    # attribute of an opaque object: may be called later
    return e.ref(mk("attr", (t,), data=name), None, e.origins(v))


KNOWN_METHODS = {"item", "tolist", "append", "extend", "pop", "popleft", "appendleft", "remove", "insert", "clear", "update", "add",
                 "items", "keys", "values", "get", "setdefault", "join", "format", "strip", "split", "startswith", "endswith",
                 "lower", "upper", "replace", "write", "writelines", "close", "read", "backward", "step", "zero_grad", "imap", "map",
                 "imap_unordered", "starmap", "apply_async", "map_async", "terminate", "mkdir", "exists", "open", "resolve",
                 "write_text", "write_bytes", "unlink", "joinpath", "fit_transform", "fit", "transform", "strftime", "numpy", "detach",
                 "cpu", "cuda", "to", "double", "float", "int", "long", "bool", "half", "contiguous", "requires_grad_", "numel",
                 "ppf", "cdf", "sf", "pdf", "logpdf", "spawn", "fill", "parameters", "eval", "train", "state_dict", "copy", "index",
                 "count", "sort", "reverse", "discard", "union", "intersection", "difference", "issubset", "nonzero", "size", "dim",
                 "block_until_ready", "acquire", "release", "isoformat", "as_posix", "touch"}


METHODS = {}


def meth(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


def method(L, recv, name, args, kw):
    e = L.e
    args = [e.dephi(x) if isinstance(x, PhiV) else x for x in args]
    a = A(L, args, kw)
    if isinstance(recv, LibV):
        return F.call(L, recv.name + "." + name, args, kw)
    if isinstance(recv, SuperV):
        if name == "__init__":
            e.event("super-init")
            return ConstV(None)
        if isinstance(recv.obj, ObjV):
            if name == "__setattr__" and len(args) == 2 and isinstance(args[0], ConstV):
                e.setattr(recv.obj, args[0].v, args[1], raw=not e.st.heap[recv.obj.cid].cls.is_module())
                return ConstV(None)
            return method_obj(L, recv.obj, name, a)
        return L.newref(mk("opaque", data=f"super.{name}{e.uid()}"))
    if isinstance(recv, ObjV):
        return method_obj(L, recv, name, a)
    if isinstance(recv, ListV):
        return method_list(L, recv, name, a)
    if isinstance(recv, DictV):
        return method_dict(L, recv, name, a)
    if isinstance(recv, (ConstV,)) and isinstance(recv.v, str):
        return method_str(L, recv, name, a)
    if isinstance(recv, TupV):
        if name == "index" or name == "count":
            return L.newref(mk("mcall", [L.t(recv)] + [L.t(x) for x in args], data=name))
    if isinstance(recv, IterV):
        if name in ("get",):
            return recv
        return L.newref(mk("mcall", [L.t(recv)], data=name))
    if isinstance(recv, ClsV):
        return L.newref(mk("mcall", [L.t(recv)] + [L.t(x) for x in args], data=name))
    if isinstance(recv, Ref):
        return method_ref(L, recv, name, a)
    return L.newref(mk("mcall", [L.t(recv)] + [L.t(x) for x in args], data=name))


# ------------------------------------------------------------------ objects of library-derived classes (nn.Module)
def method_obj(L, o, name, a):
    e = L.e
    rec = e.st.heap[o.cid]
    if name in ("train", "eval"):
        val = TRUE if name == "train" else FALSE
        if name == "train" and (a.args or a.kw):
            val = a.t(0, "mode")
        e.event("mode", cid=o.cid, cls=rec.cls.qual, value=val)
        return o
    if name in ("to", "cpu", "cuda", "float", "double", "requires_grad_", "half"):
        e.event("module-to", cid=o.cid, cls=rec.cls.qual, how=name, args=tuple(L.t(x) for x in list(a.args) + list(a.kw.values())))
        return o
    if name == "register_buffer":
        n = a.v(0, "name")
        v = a.v(1, "tensor")
        if isinstance(n, ConstV):
            e.setattr(o, n.v, v)
            e.buffers.add((rec.cls.qual, n.v))
            e.event("register-buffer", cid=o.cid, name=n.v, value=L.t(v), persistent=a.t(2, "persistent", default=TRUE))
        return ConstV(None)
    if name in ("register_parameter", "add_module", "register_module"):
        n = a.v(0, "name")
        v = a.v(1, "param", "module")
        if isinstance(n, ConstV):
            e.setattr(o, n.v, v)
        else:
            e.event("register-dynamic", cid=o.cid, v=v, name=L.t(n))
            e.dynreg.setdefault(o.cid, []).append((L.t(n), v))
        return ConstV(None)
    if name in ("parameters", "named_parameters", "state_dict", "modules", "children", "buffers", "named_modules", "named_children"):
        return L.newref(mk("modparams", (L.t(o),), data=name))
    if name in ("zero_grad", "load_state_dict", "apply", "share_memory", "compile", "register_forward_hook"):
        e.event("mcall", recv=L.t(o), name=name, args=tuple(L.t(x) for x in a.args), kw={}, cid=o.cid, origins=frozenset({o.cid}), v=list(a.args))
        return o if name != "zero_grad" else ConstV(None)
    if name == "__call__":
        return e.callv(o, a.args, a.kw)
    if name == "_replace":
        f = dict(rec.fields)
        f.update(a.kw)
        return ObjV(e.cell(OObj(rec.cls, f)))
    if name == "_asdict":
        return DictV(e.cell(DObj(dict(rec.fields))))
    e.event("mcall", recv=L.t(o), name=name, args=tuple(L.t(x) for x in a.args), kw={}, cid=o.cid, origins=frozenset({o.cid}), v=list(a.args))
    return L.newref(mk("mcall", [L.t(o)] + [L.t(x) for x in a.args], data=name))


# ------------------------------------------------------------------ lists, sets, deques
def mutlist(L, o, how):
    L.e.event("mutate", origins=frozenset({o.cid}), how=how, term=None, idx=None, value=None)


def method_list(L, o, name, a):
    e = L.e
    rec = e.st.heap[o.cid]
    items = list(rec.items)
    plain = all(not c for _, c in items)
    if name in ("append", "appendleft", "add"):
        mutlist(L, o, name)
        v = a.v(0)
        if name == "add" and rec.kind == "set":
            e.event("hash", value=L.t(v), v=v)
        e.event("append", cid=o.cid, value=L.t(v), v=v, how=name)
        if name == "appendleft":
            items.insert(0, (v, frozenset()))
        else:
            items.append((v, frozenset()))
        e.st.heap[o.cid] = LObj(items, rec.kind)
        return ConstV(None)
    if name in ("extend", "update"):
        mutlist(L, o, name)
        for x in a.args:
            L.list_extend(o, x)
        return ConstV(None)
    if name == "insert":
        mutlist(L, o, name)
        i = a.v(0)
        if isinstance(i, ConstV) and plain and isinstance(i.v, int):
            items.insert(i.v, (a.v(1), frozenset()))
        else:
            items = [(x, c | {"maybe"}) for x, c in items] + [(a.v(1), frozenset({"maybe"}))]
        e.st.heap[o.cid] = LObj(items, rec.kind)
        return ConstV(None)
    if name in ("pop", "popleft"):
        mutlist(L, o, name)
        e.event("pop", cid=o.cid, how=name)
        i = a.v(0)
        idx = 0 if name == "popleft" else (-1 if i is None else (i.v if isinstance(i, ConstV) else None))
        if plain and items and idx is not None and rec.kind != "set" and not e.loops:
            x = items.pop(idx)[0]
            e.st.heap[o.cid] = LObj(items, rec.kind)
            return x
        if not items:
            return e.ref(mk("popped", (L.t(o),), data=e.uid()))
        e.st.heap[o.cid] = LObj([(x, c | {"maybe"}) for x, c in items], rec.kind)
        return e.joinmany([x for x, _ in items], len(e.loops))
    if name in ("remove", "discard", "clear"):
        mutlist(L, o, name)
        if name == "clear":
            e.st.heap[o.cid] = LObj([], rec.kind)
        else:
            e.st.heap[o.cid] = LObj([(x, c | {"maybe"}) for x, c in items], rec.kind)
        return ConstV(None)
    if name in ("sort", "reverse", "rotate"):
        mutlist(L, o, name)
        if name == "reverse" and plain:
            e.st.heap[o.cid] = LObj(items[::-1], rec.kind)
        elif name != "reverse":
            if "key" in a.kw and items:
                e.callv(a.kw["key"], [items[0][0]], {})
            e.st.heap[o.cid] = LObj([(x, c | {"maybe"}) for x, c in items], rec.kind)
        return ConstV(None)
    if name == "copy":
        return ListV(e.cell(LObj(items, rec.kind)))
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        return L.newref(mk({"union": "or", "intersection": "and", "difference": "sub"}.get(name, "xor"),
                           [L.t(o)] + [L.t(x) for x in a.args]))
    if name in ("parameters",):
        return L.newref(mk("modparams", (L.t(o),), data=name))
    if name in ("to", "train", "eval"):
        return o
    return L.newref(mk("mcall", [L.t(o)] + [L.t(x) for x in a.args], data=name))


def method_dict(L, o, name, a):
    e = L.e
    rec = e.st.heap[o.cid]
    keyv = lambda k: e.val(k) if isinstance(k, T.Term) else ConstV(k)
    if name in ("items", "values", "keys"):
        out = []
        for k, x in rec.entries.items():
            c = frozenset()
            if isinstance(x, PhiV):
                x = e.resolve_phi(x)
            if isinstance(x, UnsetV):
                continue
            if isinstance(x, PhiV) and (isinstance(x.a, UnsetV) or isinstance(x.b, UnsetV)):
                c = frozenset({"maybe"})
                x = e.dephi(x)
            out.append((TupV([keyv(k), x]) if name == "items" else x if name == "values" else keyv(k), c))
        for k, x, c in rec.extra:
            out.append((TupV([e.val(k), x]) if name == "items" else x if name == "values" else e.val(k), c or frozenset({"maybe"})))
        if isinstance(rec.kind, tuple):
            out.append((L.newref(mk("kwitem", (rec.kind[1],), data=name)), frozenset({"maybe"})))
        return IterV("gen", {"items": out})
    if name == "get":
        k = a.v(0)
        key = e.dictkey(k)
        d = a.v(1, "default") or ConstV(None)
        if isinstance(rec.kind, tuple) and key not in rec.entries:
            h = mk("kwhas", (rec.kind[1],), data=key)
            return e.joinval(h, e.ref(mk("kwget", (rec.kind[1],), data=key)), d, e.st, e.st, e.st)
        if key in rec.entries:
            x = rec.entries[key]
            if isinstance(x, PhiV):
                def go(x):
                    if isinstance(x, PhiV):
                        return e.joinval(x.cond, go(x.a), go(x.b), e.st, e.st, e.st)
                    return d if isinstance(x, UnsetV) else x
                return go(x)
            return x
        if not rec.extra and not isinstance(key, T.Term):
            return d
        return L.newref(mk("dget", (L.t(o), L.t(k), L.t(d))))
    if name == "pop":
        k = a.v(0)
        key = e.dictkey(k)
        mutlist(L, o, "pop")
        d = a.v(1)
        if isinstance(rec.kind, tuple) and key not in rec.entries:
            kind = ("opaque", rec.kind[1], rec.kind[2] | {key})
            e.st.heap[o.cid] = DObj(rec.entries, kind, rec.extra)
            g = e.ref(mk("kwget", (rec.kind[1],), data=key))
            if d is None:
                return g
            return e.joinval(mk("kwhas", (rec.kind[1],), data=key), g, d, e.st, e.st, e.st)
        if key in rec.entries:
            ent = dict(rec.entries)
            x = ent.pop(key)
            e.st.heap[o.cid] = DObj(ent, rec.kind, rec.extra)
            return e.dephi(x) if isinstance(x, PhiV) else x
        if d is not None:
            return d
        e.event("key-missing", key=repr(key))
        return L.newref(mk("opaque", data=f"pop{e.uid()}"))
    if name == "setdefault":
        k = a.v(0)
        key = e.dictkey(k)
        if key in rec.entries:
            return rec.entries[key]
        mutlist(L, o, "setdefault")
        v = a.v(1, "default") or ConstV(None)
        if isinstance(rec.kind, tuple) and not isinstance(key, T.Term) and key not in rec.kind[2]:
            v = e.joinval(mk("kwhas", (rec.kind[1],), data=key), e.ref(mk("kwget", (rec.kind[1],), data=key)), v, e.st, e.st, e.st)
        ent = dict(rec.entries)
        ent[key] = v
        e.st.heap[o.cid] = DObj(ent, rec.kind, rec.extra)
        return v
    if name == "update":
        mutlist(L, o, "update")
        ent, extra = dict(rec.entries), list(rec.extra)
        for x in a.args:
            if isinstance(x, DictV):
                r = e.st.heap[x.cid]
                ent.update(r.entries)
                extra.extend(r.extra)
                if isinstance(r.kind, tuple):
                    extra.append((mk("kwkey", (r.kind[1],)), L.newref(mk("kwitem", (r.kind[1],))), frozenset({"maybe"})))
            else:
                extra.append((mk("opaque", data=f"k{e.uid()}"), e.elem(x), frozenset({"maybe"})))
        ent.update(a.kw)
        e.st.heap[o.cid] = DObj(ent, rec.kind, extra)
        L.objdict(rec.kind, {k: x for k, x in ent.items() if rec.entries.get(k) is not x})
        return ConstV(None)
    if name == "copy":
        return DictV(e.cell(DObj(dict(rec.entries), "dict" if str(rec.kind).startswith("objdict:") else rec.kind, rec.extra)))
    if name == "clear":
        mutlist(L, o, "clear")
        e.st.heap[o.cid] = DObj({}, "dict")
        return ConstV(None)
    return L.newref(mk("mcall", [L.t(o)] + [L.t(x) for x in a.args], data=name))


def method_str(L, s, name, a):
    e = L.e
    if all(isinstance(x, ConstV) for x in a.args) and not a.kw and name in (
            "lower", "upper", "strip", "startswith", "endswith", "replace", "title", "rstrip", "lstrip", "removeprefix", "removesuffix",
            "capitalize", "casefold", "find", "count", "isdigit"):
        try:
            return ConstV(getattr(s.v, name)(*[x.v for x in a.args]))
        except Exception:
            pass
    if name == "format":
        parts = s.v.split("{}")
        if len(parts) == len(a.args) + 1 and not a.kw:
            out = [const(parts[0])]
            for p, x in zip(parts[1:], a.args):
                out.append(const(str(x.v)) if isinstance(x, ConstV) else L.tostr(L.t(x)))
                out.append(const(p))
            return e.val(T.strcat(out))
        return L.newref(mk("strcat", [const(s.v)] + [L.tostr(L.t(x)) for x in a.args]))
    if name == "join":
        items = e.known_items(a.v(0))
        if items is not None:
            out = []
            for i, x in enumerate(items):
                if i:
                    out.append(const(s.v))
                out.append(const(x.v) if isinstance(x, ConstV) else L.tostr(L.t(x)))
            return e.val(T.strcat(out))
        v = a.v(0)
        return L.newref(mk("strcat", (const(s.v), L.tostr(L.t(v)))))
    if name in ("split", "rsplit", "splitlines"):
        return L.newref(mk("strsplit", [const(s.v)] + [L.t(x) for x in a.args]))
    return L.newref(mk("mcall", [const(s.v)] + [L.t(x) for x in a.args], data=name))


# ------------------------------------------------------------------ opaque / array values
def moved(L, v, t, name, a):
    """device typing: what moves a tensor between devices, or takes it to the host"""
    e = L.e
    ds = [x for x in list(a.args) + list(a.kw.values()) if not isinstance(x, LibV)]
    if name == "to" and ds:
        return e.ref(mk("todev", (t, L.t(ds[0]))), None, e.origins(v))
    if name == "cpu":
        return e.ref(mk("todev", (t, const("cpu"))), None, e.origins(v))
    if name == "cuda":
        return e.ref(mk("todev", (t, const("cuda"))), None, e.origins(v))
    if name in ("numpy", "tolist"):
        e.event("tohost", term=t, how=name)
        return e.ref(mk("hostnew", (t,)), None, e.origins(v))
    if name == "item":
        return e.ref(mk("item", (t,)), None, e.origins(v))
    if name in ("new_zeros", "new_ones", "new_full", "new_empty", "new_tensor"):
        return e.ref(mk("likedev", (mk("full", (F.shapearg(L, a.args[0]), const(0))), t)))
    return None


def method_ref(L, v, name, a):
    e = L.e
    t = L.t(v)
    if (t.op == "lib" and name == "transpose") or name == "transpose" or name == "t" and not a.args:
        return F.transpose_val(L, v)
    if t.op in ("dist",) or (t.op == "lib" and name in ("ppf", "cdf", "sf", "isf", "pdf", "logpdf")):
        ts, kw = [L.t(x) for x in a.args], {k: L.t(x) for k, x in a.kw.items()}
        if not ts and kw:
            ts = [kw.pop("x" if "x" in kw else "q" if "q" in kw else next(iter(kw)))]
        return L.newref(F.dist_fn(name, t, ts[0], ts[1:], kw) if ts else mk("dist." + name, [t]))
    if e.devices and not t.op.startswith(("new:", "lib")):
        r = moved(L, v, t, name, a)
        if r is not None:
            return r
    f = METHODS.get(name)
    if f is not None:
        r = f(L, v, t, a)
        if r is not None:
            return r
    gen = t.op in GENOPS or e.kindfacts.get(t) == "generator"
    if name in DRAWS and (gen or name not in ("sample", "f", "beta", "random", "choice", "bytes", "shuffle") or looks_gen(L, t)):
        if gen or looks_gen(L, t):
            return F.L_draw(L, t, name, a, e.origins(v))
    if name in ("spawn", "bit_generator") and (gen or looks_gen(L, t)):
        e.event("draw", gen=t, method=name, term=t, origins=frozenset(e.origins(v)), args=(), kw={})
        return e.newlist([L.newref(mk("rng", (t,), data=e.uid()))], "list", [frozenset({"maybe"})])
    if name.endswith("_") and not name.startswith("_") and len(name) > 2:
        r = inplace(L, v, t, name[:-1], a)
        if e.devices and r is v and L.t(v) is not t:
            e.write(v, mk("likedev", (L.t(v), t)), name)       # the storage stays where it is
        return r
    if name in UN:
        return L.fresh(F.un(L, UN[name], t))
    if name in BIN and len(a.args) + len(a.kw) >= 1:
        return L.fresh(F.binary(L, BIN[name], t, a.t(0, "other")))
    if name in RED:
        out = a.kw.pop("out", None)
        r = F.reduce_(L, RED[name], t, a, 0)
        return L.fresh(r)
    if name in DRAWS and name not in ("sample", "f", "beta"):
        return F.L_draw(L, t, name, a, e.origins(v))
    g = F.NUM.get(name)
    if g is not None and name in ("inverse", "det", "slogdet", "logdet", "diag", "diagonal", "triu", "tril", "argsort", "outer", "unbind",
                                  "diff", "tile", "repeat", "argwhere", "softmax", "flip", "roll", "take", "searchsorted", "trace", "where",
                                  "isin", "squeeze", "unsqueeze", "expand_dims", "diag_embed", "kron", "unique", "quantile", "cholesky",
                                  "mse_loss", "logsumexp", "matmul"):
        return g(L, A(L, [v] + list(a.args), a.kw))
    return mcall(L, v, t, name, a)


def looks_gen(L, t):
    if t.op in GENOPS:
        return True
    if t.op == "param" and ("rng" in str(t.data) or "gen" in str(t.data)):
        return True
    if t.op in ("phi",):
        return looks_gen(L, t.args[1]) or looks_gen(L, t.args[2])
    if t.op in ("attr", "kwget") and ("rng" in str(t.data) or "random" in str(t.data) or "gen" in str(t.data)):
        return True
    return False


def mcall(L, v, t, name, a):
    e = L.e
    ts = [L.t(x) for x in a.args]
    kw = {k: L.t(x) for k, x in a.kw.items()}
    og = set(e.origins(v))
    e.event("mcall", recv=t, name=name, args=tuple(ts), kw=kw, origins=frozenset(og), v=list(a.args), cid=v.cid)
    return e.ref(mk("mcall", [t] + ts, kw, data=name), None, e.origins(v))


def inplace(L, v, t, base, a):
    e = L.e
    if base == "requires_grad":
        e.event("param-grad", cid=v.cid, target=t, origins=frozenset(e.origins(v)), value=a.t(0, "requires_grad", default=TRUE))
        return v
    if base in ("normal", "uniform", "random", "bernoulli", "exponential", "log_normal", "cauchy", "geometric"):
        g = a.kw.pop("generator", None)
        gt = L.t(g) if g is not None else mk("lib", data="torch-global")
        m = {"normal": "standard_normal" if not a.args and not a.kw else "normal"}.get(base, base)
        x = mk("draw", [gt] + [L.t(y) for y in a.args], {**{k: L.t(y) for k, y in a.kw.items()}, "size": L.shapeof(t)},
               data=(m, e.uid()))
        e.event("draw", gen=gt, method=m, term=x, origins=frozenset(e.origins(g)) if g is not None else frozenset(), args=(), kw={})
        e.write(v, x, base + "_")
        return v
    if base == "zero":
        nt = mk("full", (L.shapeof(t), const(0)))
    elif base == "fill":
        nt = mk("full", (L.shapeof(t), a.t(0)))
    elif base == "copy":
        nt = a.t(0)
    elif base in UN:
        nt = F.un(L, UN[base], t)
    elif base in BIN:
        nt = F.binary(L, BIN[base], t, a.t(0))
    elif base in ("clamp", "clip"):
        nt = F.clip(L, t, a, 0)
    elif base in ("t", "transpose"):
        nt = T.transpose(t)
    elif base == "fill_diagonal":
        nt = mk("store", (t, mk("diagidx"), a.t(0)))
    elif base in ("unsqueeze", "squeeze"):
        nt = mk("reshaped", (t,), data=e.uid())
    elif base in ("masked_fill",):
        nt = mk("store", (t, L.normidx(a.t(0)), a.t(1)))
    else:
        return mcall(L, v, t, base + "_", a)
    e.write(v, nt, base + "_")
    return v


@meth("copy", "clone")
def _copy(L, v, t, a):
    return L.e.ref(t)


@meth("sample", "rsample")
def _dsample(L, v, t, a):
    if t.op != "dist:Normal":
        return None
    e = L.e
    d = mk("draw", (mk("lib", data="torch-global"),) + t.args, {"size": L.shapeof(t.args[0])}, data=("normal", e.uid()))
    e.event("draw", gen=mk("lib", data="torch-global"), method="normal", term=d, origins=frozenset(), args=t.args, kw={})
    return e.ref(d)


TRACKED = {"add", "sub", "mul", "div", "neg", "matmul", "exp", "log", "pow", "sum", "mean", "linear", "relu", "tanh", "sigmoid", "norm", "phi", "trace", "reshape", "T", "getitem"}


@meth("detach")
def _detach(L, v, t, a):
    L.e.event("detach", term=t, cid=v.cid, origins=frozenset(L.e.origins(v)))
    if t.op in TRACKED:       # a computed value: no gradient flows back through it
        return L.e.ref(mk("detach", (t,)), None, L.e.origins(v))
    if v.cid in L.e.parameters:         # a weight: the same storage, but no gradient
        return L.e.ref(mk("detach", (t,)), (v.cid, ("detach",)), L.e.origins(v))
    return _same(L, v, t, a)


@meth("cpu", "cuda", "numpy", "contiguous", "double", "half", "requires_grad")
def _same(L, v, t, a):
    if t.op.startswith("new:"):
        return v
    return L.e.ref(t, (v.cid, ("same",)), L.e.origins(v))


@meth("to", "type")
def _to(L, v, t, a):
    for x in list(a.args) + list(a.kw.values()):
        if isinstance(x, LibV):
            return L.e.ref(astype(L, t, dtypeterm(L, x)), None, L.e.origins(v))
    if t.op.startswith("new:"):
        return v
    return L.e.ref(t, (v.cid, ("same",)), L.e.origins(v))


@meth("astype")
def _astype(L, v, t, a):
    dt = dtypeterm(L, a.v(0, "dtype"))
    cp = a.v(None, "copy")
    nt = astype(L, t, dt)
    if cp is not None and L.t(cp) is FALSE:
        return L.e.ref(nt, None, L.e.origins(v))
    return L.e.ref(nt)


@meth("float", "long", "int", "bool")
def _cast(L, v, t, a):
    raise NotImplementedError


def _mkcast(k):
    return lambda L, v, t, a: L.e.ref(astype(L, t, const(k)) if k == "bool" or k == "int" else t, None, L.e.origins(v))


METHODS["float"], METHODS["long"], METHODS["int"], METHODS["bool"] = _mkcast("float32"), _mkcast("int"), _mkcast("int"), _mkcast("bool")


@meth("reshape", "view")
def _reshape(L, v, t, a):
    if len(a.args) == 1 and not isinstance(a.args[0], LibV):
        shp = F.shapearg(L, a.args[0])
    elif "shape" in a.kw:
        shp = F.shapearg(L, a.kw["shape"])
    else:
        shp = T.tup([L.t(x) for x in a.args])
    return F.reshape_val(L, v, shp, F.order(L, a))


def forder(L, a):
    return None if not a.args or T.is_c(L.t(a.args[0]), "C") else "F" if T.is_c(L.t(a.args[0]), "F") else None


@meth("ravel")
def _ravel(L, v, t, a):
    return F.ravel_val(L, v, o=F.order(L, a) or forder(L, a))


@meth("flatten")
def _flatten(L, v, t, a):
    return F.ravel_val(L, v, copy=True, o=F.order(L, a) or forder(L, a))


@meth("squeeze")
def _squeeze(L, v, t, a):
    if not a.args and not a.kw:
        return L.e.ref(mk("squeeze", (t,)), None, L.e.origins(v))
    return _view(L, v, t, a)


@meth("unsqueeze", "expand", "view_as", "swapaxes", "permute")
def _view(L, v, t, a):
    return L.e.ref(mk("reshaped", [t] + [L.t(x) for x in a.args]), None, L.e.origins(v))


@meth("clip", "clamp")
def _clip(L, v, t, a):
    out = a.kw.pop("out", None)
    nt = F.clip(L, t, a, 0)
    if isinstance(out, Ref):
        L.e.write(out, nt, "out= of clip")
        return out
    return L.newref(nt)


@meth("item")
def _item(L, v, t, a):
    return L.fresh(t) if not a.args else L.newref(mk("getitem", [t, L.t(a.args[0])]))


@meth("tolist")
def _tolist(L, v, t, a):
    return L.e.ref(t)


@meth("nonzero")
def _nonzero(L, v, t, a):
    return F.nonzero_val(L, t)


@meth("fill")
def _fill(L, v, t, a):
    L.e.write(v, mk("full", (L.shapeof(t), a.t(0))), "fill")
    return ConstV(None)


@meth("sort")
def _sort(L, v, t, a):
    kw = {k: L.t(x) for k, x in a.kw.items() if k == "axis"}
    if a.args:
        kw["axis"] = L.t(a.args[0])
    L.e.write(v, mk("sort", (t,), kw), "sort")
    return ConstV(None)


@meth("resize", "partition", "setfield", "itemset", "byteswap", "put")
def _mut(L, v, t, a):
    L.e.write(v, mk("mut", [t] + [L.t(x) for x in a.args], data=L.e.uid()), "in-place method")
    return ConstV(None)


@meth("pow")
def _pow(L, v, t, a):
    return L.fresh(L.binop_term("pow", t, a.t(0)))


@meth("square")
def _square(L, v, t, a):
    return L.fresh(L.binop_term("pow", t, const(2)))


@meth("norm")
def _norm(L, v, t, a):
    return L.newref(F.norm(L, t, a, 0))


@meth("numel")
def _numel(L, v, t, a):
    return L.fresh(L.size(t))


@meth("size")
def _size(L, v, t, a):
    if a.args and isinstance(a.args[0], ConstV):
        return L.fresh(L.dim(t, a.args[0].v))
    return refattr(L, v, "shape")


@meth("dim")
def _dim(L, v, t, a):
    return refattr(L, v, "ndim")


@meth("new_zeros", "new_ones", "new_full", "new_empty")
def _new(L, v, t, a):
    return L.newref(mk("full", (F.shapearg(L, a.args[0]), const(0))))


def _standardized(L, t, a, x):
    """the result of transform(x): with copy=False a float array is standardised in place and returned"""
    cp = t.kwd("copy")
    new = mk("standardize", (a.t(0, "X"),), {k: v for k, v in dict(t.kw).items() if k != "copy"}) if x is None else x
    v = a.v(0, "X")
    if cp is not None and cp.op == "const" and cval(cp) is False and isinstance(v, Ref):
        L.e.write(v, new, "standardised with copy=False")
        return v
    return L.newref(new)


@meth("fit_transform")
def _fitt(L, v, t, a):
    if t.op.endswith("StandardScaler"):
        return _standardized(L, t, a, None)
    return None


@meth("fit")
def _fit(L, v, t, a):
    if t.op.endswith("StandardScaler"):
        r = L.newref(mk("fitted:StandardScaler", (a.t(0, "X"),), dict(t.kw)))
        L.e.st.heap[v.cid] = L.e.st.heap[r.cid]
        return v
    return None


@meth("transform")
def _transform(L, v, t, a):
    if t.op == "fitted:StandardScaler":
        x = a.t(0, "X")
        if x is t.args[0]:
            return L.newref(mk("standardize", (x,), dict(t.kw)))
        return L.newref(mk("standardize_with", (x, t.args[0]), dict(t.kw)))
    return None


# pools
def worker(L, f, el):
    e = L.e
    outer, e.ev = e.ev, []
    e.ctx.append(mk("worker"))
    s0 = e.st
    r = e.callv(f, el, {})
    e.ctx.pop()
    body, e.ev = e.ev, outer
    e.ev.append(Node("call", {"qual": "<worker>", "loc": e.loc, "args": {}, "fid": None, "node": None, "gen": False}, [body]))
    if e.st is None:
        e.st = s0
        return mk("opaque", data="worker-raises")
    return L.t(r)


@meth("imap", "map", "imap_unordered", "starmap", "map_async", "starmap_async")
def _pool(L, v, t, a):
    raise NotImplementedError


def _mkpool(nm):
    def f(L, v, t, a):
        e = L.e
        if not ("Pool" in t.op or "Executor" in t.op or "Pool" in str(t.data) or t.op.startswith("call:") and "Pool" in t.op):
            return None
        fn, it = a.v(0, "func"), a.v(1, "iterable")
        el = F.iterelem(L, it)
        if nm.startswith("starmap"):
            k = e.known_items(el)
            args = k if k is not None else [L.subscript(el, ConstV(0)), L.subscript(el, ConstV(1))]
        else:
            args = [el]
        rt = worker(L, fn, args)
        ordered = nm != "imap_unordered"
        term = mk("pmap", (rt, L.t(it)), data="ordered" if ordered else "unordered")
        ev = e.event("pool", recv=t, method=nm, func=L.t(fn), result=rt, src=L.t(it), srcv=it, ordered=ordered, elem=el, term=term)
        return IterV("poolmap", {"term": term, "func": fn, "elem": el})
    return f


for _n in ("imap", "map", "imap_unordered", "starmap", "map_async", "starmap_async"):
    METHODS[_n] = _mkpool(_n)


# files and paths
@meth("write", "writelines", "write_text", "write_bytes")
def _write(L, v, t, a):
    L.e.event("write", file=t, what=a.t(0, default=NONE))
    return ConstV(None)


@meth("mkdir", "touch")
def _mkdir(L, v, t, a):
    if t.op in ("path", "pathjoin") or t.op in ("param", "attr"):
        L.e.event("mkdir", path=t, kw={k: L.t(x) for k, x in a.kw.items()})
        return ConstV(None)
    return None


@meth("open")
def _open(L, v, t, a):
    if t.op in ("path", "pathjoin"):
        mode = a.t(0, "mode", default=const("r"))
        L.e.event("open", path=t, mode=mode)
        return L.newref(mk("file", (t, mode)))
    return None


@meth("joinpath")
def _jp(L, v, t, a):
    return L.newref(L.pathjoin([t] + [L.t(x) for x in a.args]))


@meth("unlink", "rename", "rmdir")
def _fsop(L, v, t, a):
    if t.op in ("path", "pathjoin"):
        L.e.event("fsop", path=t, args=tuple(L.t(x) for x in a.args))
        return ConstV(None)
    return None


@meth("exists", "is_dir", "is_file", "resolve", "absolute", "expanduser", "as_posix")
def _pq(L, v, t, a):
    if t.op in ("path", "pathjoin"):
        return L.newref(t) if a is not None and False else None
    return None


@meth("format")
def _format(L, v, t, a):
    return L.newref(mk("strcat", [t] + [L.tostr(L.t(x)) for x in a.args]))


@meth("rstrip", "strip", "lstrip", "removesuffix")
def _strip(L, v, t, a):
    return L.newref(mk("strip", [t] + [L.t(x) for x in a.args]))


def apply(L, f, args, kw):
    """call of an opaque callable value"""
    e = L.e
    t = L.t(f)
    if t.op == "attr" and t.data in ("manual_seed",):
        e.event("seed", which="torch", value=L.t(args[0]) if args else NONE)
        return f
    if t.op.startswith("act:"):
        n = t.op[4:]
        x = L.t(args[0])
        if n == "Identity":
            return args[0]
        return L.newref(mk({"Sigmoid": "sigmoid", "ReLU": "relu", "Tanh": "tanh", "Softplus": "softplus"}[n], (x,)))
    if t.op == "attr":
        # method of an opaque object
        recv = t.args[0]
        ts = [L.t(x) for x in args]
        k = {n: L.t(x) for n, x in kw.items()}
        e.event("mcall", recv=recv, name=t.data, args=tuple(ts), kw=k, origins=frozenset(e.origins(f)), v=list(args), cid=f.cid)
        return e.ref(mk("mcall", [recv] + ts, k, data=t.data), None, e.origins(f))
    ts = [L.t(x) for x in args]
    k = {n: L.t(x) for n, x in kw.items()}
    e.event("apply", func=t, args=tuple(ts), kw=k, cid=f.cid)
    return L.newref(mk("apply", [t] + ts, k))
