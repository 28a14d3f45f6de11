from .base import *
from .tools import *
from sa.values import *
import sa.terms as T
from sa.terms import mk

ID, TITLE = "C42", "Figures put every variable and value where it belongs"
RULE = ("Position analysis of everything that is drawn.  Lists, ranges, comprehensions and dictionaries are normalised to sequences (length, value as a function of the position I) with linear "
        "arithmetic over I and the dimensions of the data.  Obligations: (1) matrix figures show the matrix itself (or matrix > threshold), and on each axis there is one tick per row or column, tick "
        "I sits at I, and its label carries the number I+1, the same on both axes; (2) a value printed into a cell is the value of the row of its y and the column of its x coordinate; (3) the DAG figure "
        "gives each node 0..L-1 (latents) and L..L+M-1 (measurements) exactly one position and one label, the label carries the node's number within its layer and a name that differs between "
        "layers, nodes of a layer share one height and differ across it, the layers differ in height, and node colours run over the latents first, then the measurements; (4) the pairwise figure shows all "
        "columns, named by position, of all observations (of the first ones, when shortened).")
ASSUMES = ["matplotlib, networkx, pandas and seaborn draw what they are given", "a dependence matrix is square"]
TECHNIQUE = "abstract interpretation to expression terms; sequences as functions of position with linear arithmetic"
_V = "medil/visualize.py"
ADJ, DCOR, DAG, PAIR = (f"medil.visualize.{x}" for x in ("show_obs_adj_mat", "show_obs_dcor_mat", "show_dag", "show_pairwise_plot"))
_L1, _L2 = "[str(idx) for idx in np.arange(1, dim + 1)]", "[f'X{idx}' for idx in np.arange(1, dim + 1)]"
WITNESSES = [
    (_V, f"    ax.set_xticklabels({_L1})", "    ax.set_xticklabels([str(idx) for idx in np.arange(dim)])"),
    (_V, f"    ax.set_yticklabels({_L2})", "    ax.set_yticklabels([f'X{idx}' for idx in np.arange(dim, 0, -1)])"),
    (_V, "    dim = adj_mat.shape[0]\n", "    dim = incidence_mat.shape[0]\n"),
    (_V, "    ax.set_xticks(np.arange(0, dim))\n    ax.set_xticklabels([f", "    ax.set_xticks(np.arange(1, dim + 1))\n    ax.set_xticklabels([f"),
    (_V, "            ax.text(i, j, round(label, 2)", "            ax.text(j, i, round(label, 2)"),
    (_V, "            ax.text(i, j, round(label, 2)", "            ax.text(i, j, round(dcor_mat[i, j], 2)"),
    (_V, "        dcor_mat = (dcor_mat > thresh).astype(int)", "        dcor_mat = (dcor_mat < thresh).astype(int)"),
    (_V, "    plt.imshow(adj_mat)", "    plt.imshow(incidence_mat)"),
    (_V, "    plt.imshow(dcor_mat, vmin=0, vmax=1)", "    plt.imshow(dcor_mat[::-1], vmin=0, vmax=1)"),
    (_V, "labels={idx: '$L_{{{}}}$'.format(idx) for idx in range(num_latent)}", "labels={idx: '$L_{{{}}}$'.format(num_latent - idx) for idx in range(num_latent)}"),
    (_V, "labels={idx+num_latent: '$M_{{{}}}$'.format(idx) for idx in range(num_obs)}", "labels={idx+num_obs: '$M_{{{}}}$'.format(idx) for idx in range(num_obs)}"),
    (_V, "labels={idx+num_latent: '$M_{{{}}}$'.format(idx) for idx in range(num_obs)}", "labels={idx+num_latent: '$M_{{{}}}$'.format(idx) for idx in range(num_latent)}"),
    (_V, "obs_pos_dict = {idx+num_latent:(val,0)", "obs_pos_dict = {idx+num_obs:(val,0)"),
    (_V, "enumerate(np.linspace(0, 1, num_obs))", "enumerate(np.linspace(0, 1, num_latent))"),
    (_V, "obs_pos_dict = {idx+num_latent:(val,0)", "obs_pos_dict = {idx+num_latent:(val,1)"),
    (_V, "latent_pos_dict = {idx:(val,1)", "latent_pos_dict = {idx:(1,val)"),
    (_V, "    node_color.extend(num_obs*[1])\n", "    node_color.extend(num_obs*[0])\n"),
    (_V, "    node_color.extend(num_latent*[0])\n    node_color.extend(num_obs*[1])\n", "    node_color.extend(num_obs*[1])\n    node_color.extend(num_latent*[0])\n"),
    (_V, "        sample = sample[:1000, :]", "        sample = sample[:, :1000]"),
    (_V, "        sample = sample[:1000, :]", "        sample = np.sort(sample[:1000, :], axis=0)"),
    (_V, "columns=[f'X{idx}' for idx in np.arange(1, sample.shape[1]+1)]", "columns=[f'X{idx}' for idx in np.arange(sample.shape[1], 0, -1)]"),
    (_V, "    ax.set_xticks(np.arange(0, dim))\n", ""),
    (_V, "    ax.set_yticks(np.arange(0, dim))\n", ""),
    (_V, "    sns.pairplot(sample_df, corner", "    sns.pairplot(sample_df.iloc[:, :-1], corner"),
]
I = mk("posidx")


# ---------------------------------------------------------------- linear arithmetic
class Lin:
    """{atom: coefficient} + constant"""

    def __init__(self, c=0, m=None):
        self.c, self.m = c, {k: v for k, v in (m or {}).items() if v}

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Lin(self.c + o.c, m)

    def times(self, k):
        return Lin(self.c * k, {a: v * k for a, v in self.m.items()})

    def __sub__(self, o):
        return self + o.times(-1)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.m == o.m

    def __hash__(self):
        return hash((self.c, frozenset(self.m.items())))

    def __repr__(self):
        return " + ".join([f"{v if v != 1 else ''}{T.show(k, 3)}" for k, v in self.m.items()] + ([str(self.c)] if self.c or not self.m else []))


def agree(*xs):
    """equal linear forms; unknown when they differ in something that is not a dimension of the data or the position"""
    if all(x == xs[0] for x in xs):
        return True
    return False if all(a is I or a.op == "dim" and a.args[0].op == "param" for x in xs for a in x.m) else None


def dims_only(*xs):
    return False if all(a is I or a.op == "dim" and a.args[0].op == "param" for x in xs for a in x.m) else None


def lin(t, square=()):
    if T.is_const(t):
        v = T.cval(t)
        return Lin(v) if isinstance(v, int) and not isinstance(v, bool) else None
    if t.op in ("int", "tuple1", "asint", "item") and len(t.args) == 1:
        return lin(t.args[0], square)
    if t.op == "add":
        r = Lin()
        for a in t.args:
            x = lin(a, square)
            if x is None:
                return None
            r = r + x
        return r
    if t.op == "sub" and len(t.args) == 2:
        a, b = lin(t.args[0], square), lin(t.args[1], square)
        return None if a is None or b is None else a - b
    if t.op == "neg":
        a = lin(t.args[0], square)
        return None if a is None else a.times(-1)
    if t.op == "mul":
        r = Lin(1)
        for a in t.args:
            x = lin(a, square)
            if x is None:
                return None
            if not r.m:
                r = x.times(r.c)
            elif not x.m:
                r = r.times(x.c)
            else:
                return None
        return r
    if t.op == "dim":
        d = dims(t.args[0], square) if t.args[0].op != "param" and t.data in (0, 1) else None
        if d and d[t.data] is not None:
            return d[t.data]
        if t.args[0] in square:
            t = mk("dim", t.args, data=0)
        return Lin(0, {t: 1})
    if t is I:
        return Lin(0, {I: 1})
    return None


# ---------------------------------------------------------------- sequences
WRAP = ("list", "tuple", "array", "asarray", "copyof", "iter", "tolist", "totuple", "gen", "sorted0")


def seq(t, sq=()):
    """[(length, value at I)] or None"""
    if t.op == "getitem" and len(t.args) == 2 and t.args[1].op == "slice":
        s, (lo, hi, st) = seq(t.args[0], sq), t.args[1].args
        ok = all(T.is_const(a) and (T.cval(a) is None or type(T.cval(a)) is int) for a in (lo, hi, st))
        if not ok or s is None or len(s) != 1 or T.cval(st) not in (None, 1):
            return None
        n, v = s[0]
        a, b = T.cval(lo) or 0, T.cval(hi)
        if a < 0 or b is not None and b >= 0:
            return None
        return [(n + Lin((b or 0) - a), T.subst(v, {I: T.binop("add", I, T.const(a))}) if a else v)]
    if t.op in ("arange", "range"):
        if t.kw:
            return None
        a = [lin(x, sq) for x in t.args]
        if any(x is None for x in a) or not a:
            return None
        if len(a) == 1:
            return [(a[0], I)]
        step = 1
        if len(a) == 3:
            if a[2].m or a[2].c not in (1, -1):
                return None
            step = a[2].c
        n = (a[1] - a[0]).times(step)
        return [(n, T.binop("add", t.args[0], I) if step == 1 else T.binop("sub", t.args[0], I))]
    if t.op == "np:linspace" and len(t.args) == 3 and not t.kw and T.is_const(t.args[0]) and T.is_const(t.args[1]) and T.cval(t.args[0]) != T.cval(t.args[1]):
        n = lin(t.args[2], sq)
        return None if n is None else [(n, mk("spread", (t.args[0], t.args[1], t.args[2], I)))]
    if t.op in ("map",) and len(t.args) == 2:
        return None
    if t.op == "enumerate" and len(t.args) == 1:
        s = seq(t.args[0], sq)
        return None if s is None or len(s) != 1 else [(s[0][0], T.tup([I, s[0][1]]))]
    if t.op == "zip" and t.args:
        ss = [seq(a, sq) for a in t.args]
        if any(s is None or len(s) != 1 or s[0][0] != ss[0][0][0] for s in ss):
            return None
        return [(ss[0][0][0], T.tup([s[0][1] for s in ss]))]
    if t.op in ("add", "sub") and len(t.args) == 2:
        a, b = t.args
        for x, y, o in ((a, b, 0), (b, a, 1)):
            s = seq(x, sq)
            if s is not None and lin(y, sq) is not None:
                return [(n, T.binop(t.op, v, y) if not o else T.binop(t.op, y, v)) for n, v in s]
        return None
    if t.op in WRAP:
        if len(t.args) == 1 and t.args[0].op not in ("many", "star") and seq(t.args[0], sq) is not None:
            return seq(t.args[0], sq)
        out = []
        for x in t.args:
            if x.op == "many":
                s = many(x, sq)
                if s is None:
                    return None
                out += s
            elif x.op == "star":
                s = seq(x.args[0], sq)
                if s is None:
                    return None
                out += s
            else:
                out.append((Lin(1), x))
        return out
    return None


def many(x, sq):
    """values appended once per element of a sequence"""
    if x.data == "maybe" or any(a.op == "cut" for a in x.args) or len(x.args) > 2:
        return None
    body = x.args[0]
    src = x.args[1] if len(x.args) == 2 else None
    if src is None:
        found = {y.args[0] for y in subterms(body) if y.op in ("elem", "index") and y.args}
        if len(found) > 1:
            loops = {y.data for y in subterms(body) if y.op in ("elem", "index") and y.args}
            ss = [(x, seq(x, sq)) for x in found]
            if len(loops) != 1 or any(q is None or len(q) != 1 or q[0][0] != ss[0][1][0][0] for _, q in ss):
                return None
            for x, q in ss:
                body = at(body, q[0][1], {x}, sq)
            return [(ss[0][1][0][0], body)]
        if not found:
            return None
        src = found.pop()
    base = src
    while base.op in ("enumerate", "map") and len(base.args) >= 1:
        base = base.args[-1]
    s = seq(base, sq)
    if s is None:
        return None
    return [(n, at(body, v, {src, base}, sq)) for n, v in s]


def at(body, v, srcs, sq):
    def f(y):
        if y.op == "elem" and y.args and same(y.args[0], srcs, sq):
            return v
        if y.op == "index" and y.args and same(y.args[0], srcs, sq):
            return I
        if y.op == "getitem" and len(y.args) == 2 and y.args[0].op == "tuple" and T.is_const(y.args[1]) and isinstance(T.cval(y.args[1]), int) and 0 <= T.cval(y.args[1]) < len(y.args[0].args):
            return y.args[0].args[T.cval(y.args[1])]
        if y.op == "getitem" and len(y.args) == 2 and lin(y.args[1], sq) is not None:
            s = seq(y.args[0], sq)
            if s is not None and len(s) == 1:
                return T.subst(s[0][1], {I: y.args[1]}) if s[0][1] is not I else y.args[1]
        return y
    memo = {}

    def go(y):
        if y not in memo:
            z = f(y)
            if z is y and (y.args or y.kw):
                a, k = [go(x) for x in y.args], [(n, go(x)) for n, x in y.kw]
                if any(p is not q for p, q in zip(a, y.args)) or any(p[1] is not q[1] for p, q in zip(k, y.kw)):
                    z = f(mk(y.op, a, k, y.data))
            memo[y] = z
        return memo[y]
    return go(body)


def same(a, srcs, sq):
    return a in srcs or any(s.op in ("range", "arange") and a.op in ("range", "arange") and seq(a, sq) is not None and [(n, lin(v, sq)) for n, v in seq(a, sq)] == [(n, lin(v, sq)) for n, v in seq(s, sq) or []] for s in srcs)


def pairs(t, sq):
    """dictionary -> [(length, key at I, value at I)]"""
    if t.op != "dict":
        return None
    out = []
    for x in t.args:
        if x.op == "kv":
            out.append((Lin(1), x.args[0], x.args[1]))
        elif x.op == "many" and x.args[0].op == "kv":
            s = many(x, sq)
            if s is None:
                return None
            out += [(n, v.args[0], v.args[1]) for n, v in s]
        else:
            return None
    return out


def label(t, sq):
    """text -> (template with {} for the number, number) or None"""
    parts = []
    num = []

    def walk(x):
        if x.op in ("strcat",):
            for a in x.args:
                walk(a)
        elif x.op == "tostr" and not T.is_const(x.args[0]):
            n = lin(x.args[0], sq)
            if n is None and x.args[0].op in ("strcat", "tostr"):
                return walk(x.args[0])
            num.append(n)
            parts.append("{}")
        elif T.is_const(x):
            parts.append(str(T.cval(x)))
        elif x.op == "fmt" and len(x.args) == 2 and T.is_const(x.args[0]):
            parts.append(str(T.cval(x.args[0])))
            num.append(lin(x.args[1], sq))
        elif lin(x, sq) is not None:
            num.append(lin(x, sq))
            parts.append("{}")
        else:
            num.append(None)
    walk(t)
    if not num:
        return "".join(parts), Lin()
    return ("".join(parts), num[0]) if len(num) == 1 and num[0] is not None else None


# ---------------------------------------------------------------- events
def calls(r, *names):
    for e in r.events:
        if e.kind in ("libcall", "mcall") and e.d.get("name", "").split(".")[-1] in names:
            yield e


def arg(e, i, *names):
    kw = e.d.get("kw") or {}
    for n in names:
        if n in kw:
            return kw[n]
    a = e.d.get("args") or ()
    return a[i] if i is not None and i < len(a) else None


def term(cx, v):
    return v if isinstance(v, T.Term) else cx.eng.term(v)


def alts(t):
    return [x for _, x in phi_leaves(t)]


def dims(t, sq):
    """(rows, columns) of a displayed matrix"""
    if t.op in ("astype", "store", "copyof", "asarray", "not", "invert", "round") and t.args:
        return dims(t.args[0], sq)
    if t.op in ("lt", "le", "gt", "ge", "mul", "add", "sub") and len(t.args) == 2:
        a, b = dims(t.args[0], sq), dims(t.args[1], sq)
        return a or b
    if t.op in ("where", "phi") and len(t.args) == 3:
        d = [dims(a, sq) for a in (t.args[1:] if t.op == "phi" else t.args)]
        d = [x for x in d if x]
        return d[0] if d and all(x == d[0] for x in d) else None
    if t.op == "T":
        d = dims(t.args[0], sq)
        return d and d[::-1]
    if t.op == "matmul" and len(t.args) == 2:
        a, b = dims(t.args[0], sq), dims(t.args[1], sq)
        return (a[0], b[1]) if a and b else None
    if t.op == "param":
        if t in cxscalars:
            return None
        return lin(mk("dim", (t,), data=0), sq), lin(mk("dim", (t,), data=1), sq)
    return None


cxscalars = set()


def axes(cx, key, r, shown, sq):
    names = {"xticks": ("x", 0, "labels"), "set_xticks": ("x", 0, "labels"), "yticks": ("y", 0, "labels"), "set_yticks": ("y", 0, "labels"), "set_xticklabels": ("x", None, "lab"), "set_yticklabels": ("y", None, "lab")}
    got = {}
    for e in calls(r, *names):
        n = e.d["name"].split(".")[-1]
        ax, i, what = names[n]
        if what == "lab":
            got.setdefault(ax, {})["lab"] = (arg(e, 0, "labels"), e)
        else:
            got.setdefault(ax, {})["pos"] = (arg(e, 0, "ticks"), e)
            l = arg(e, 1, "labels")
            if l is not None:
                got[ax]["lab"] = (l, e)
    ds = [dims(a, sq) for a in alts(shown)] if shown is not None else []
    off = {}
    for k, ax in ((1, "x"), (0, "y")):
        g = got.get(ax, {})
        pos, lab = g.get("pos"), g.get("lab")
        if lab is None:
            cx.put(True if pos is None else None, "labels", f"{key} {ax}", None, "no labels of its own on this axis")
            continue
        loc = lab[1].loc
        L = seq(term(cx, lab[0]), sq) if lab[0] is not None else None
        Ps = seq(term(cx, pos[0]), sq) if pos and pos[0] is not None else None
        if not pos and lab[1].d["name"].split(".")[-1] == f"set_{ax}ticklabels":
            other = any(calls(r, "set_ticks", "set", "setp", "set_major_locator", "tick_params", "set_ticklabels", "locator_params", "update"))
            cx.put(None if other else False, "tick-position", f"{key} {ax}", loc, "labels are put on whatever ticks the axis happens to have" + (" unless another call sets them" if other else ": no call places one tick per row or column"))
            continue
        if not L or not Ps or len(L) != 1 or len(Ps) != 1:
            cx.put(None, "labels", f"{key} {ax}", loc, "ticks or labels not understood as a sequence")
            continue
        (n, p), (m, t) = Ps[0], L[0]
        want = ds[0][k] if ds and all(d is not None and d[k] == ds[0][k] for d in ds) and ds[0][k] is not None else None
        for what, q in (("ticks", n), ("labels", m)):
            cx.put(None if want is None else agree(q, want), "count", f"{key} {ax} {what}", loc, f"{q} {what} for {want} rows or columns" if q != want else f"one per row or column ({q})")
        pl, tl = lin(p, sq), label(t, sq)
        if pl is None or tl is None:
            cx.put(None, "labels", f"{key} {ax}", loc, "tick position or label number not linear in the position")
            continue
        cx.put(agree(pl, Lin(0, {I: 1})), "tick-position", f"{key} {ax}", loc, f"tick I sits at {pl}")
        cx.put(agree(tl[1] - pl, Lin(1)), "label-number", f"{key} {ax}", loc, f"the tick at {pl} is labelled {tl[0]} with {tl[1]}")
        off[ax] = tl
    if len(off) == 2:
        cx.put(off["x"] == off["y"], "same-labels", key, None, f"labels {off['x']} and {off['y']}")


def matrix_figures(cx):
    if cx.has(ADJ):
        r = cx.run(ADJ, lambda _: (cx.call(ADJ, cx.p("biadj", "ndarray", 2, nonempty=True))))
        ref = cx.run("recover_ug", lambda _: cx.call("medil.evaluate.recover_ug", cx.p("biadj", "ndarray", 2, nonempty=True))) if cx.has("medil.evaluate.recover_ug") else None

        def same_graph(t):
            if ref is None:
                return None
            g = ref.term()
            x = t
            while x.op in ("astype", "asarray", "copyof", "T") and x.args:
                x = x.args[0]
            if x is g:
                return True
            b = cx.eng.term(cx.p("biadj", "ndarray", 2, nonempty=True))
            wrong = [b, T.transpose(b), T.subst(g, {b: T.transpose(b)}), mk("not", (g,)), T.binop("sub", T.const(1), g)]
            return False if x in wrong or x.op in FLIP and x.args[0] is g else None
        figure(cx, "show_obs_adj_mat", r, same_graph, ())
    if cx.has(DCOR):
        box = {}

        def go(_):
            m, thr = cx.p("dcor_mat", "ndarray", 2, nonempty=True), cx.p("thresh", "float")
            box["m"], box["t"] = cx.eng.term(m), cx.eng.term(thr)
            cxscalars.add(box["t"])
            return cx.call(DCOR, m, thr, cx.p("print_val", "bool"))
        r = cx.run(DCOR, go)

        def right(t):
            return {"id": True, "ind": True, "inv": False, "bad": False}.get(kind(t, box["m"], box["t"]))
        figure(cx, "show_obs_dcor_mat", r, right, (box.get("m"),))
        texts(cx, "show_obs_dcor_mat", r)


FLIP = ("call:numpy.flip", "call:numpy.flipud", "call:numpy.fliplr", "call:numpy.rot90", "call:numpy.roll", "call:numpy.sort", "flip", "np:flip", "np:flipud", "np:fliplr", "np:rot90", "np:roll", "roll", "np:sort", "sort", "sorted")


def kind(t, m, th):
    """a displayed dependence matrix: itself, its entries above the threshold, the opposite, or something else"""
    if t is m:
        return "id"
    if t.op in ("astype", "int") and t.args:
        k = kind(t.args[0], m, th)
        ty = str(T.cval(t.args[1])) if len(t.args) > 1 and T.is_const(t.args[1]) else ""
        return "bad" if k == "id" and ("int" in ty or "bool" in ty or t.op == "int") else k
    if t.op in ("asarray", "copyof", "float", "T", "ascontiguous"):
        return kind(t.args[0], m, th)
    if t.op in ("lt", "le") and len(t.args) == 2:
        a, b = t.args
        if a is th:
            k = kind(b, m, th)
            return "ind" if k == "id" else "bad" if k == "bad" else None
        if b is th:
            return "inv" if kind(a, m, th) == "id" else None
    if t.op in ("not", "invert"):
        return {"ind": "inv", "inv": "ind"}.get(kind(t.args[0], m, th))
    if t.op == "sub" and T.is_c(t.args[0], 1):
        return {"ind": "inv", "inv": "ind", "id": "bad"}.get(kind(t.args[1], m, th))
    if t.op == "mul" and any(T.is_c(a, 1) for a in t.args):
        return kind([a for a in t.args if not T.is_c(a, 1)][0], m, th) if len(t.args) == 2 else None
    if t.op in ("where", "phi") and len(t.args) == 3 and T.is_const(t.args[1]) and T.is_const(t.args[2]):
        k = kind(t.args[0], m, th)
        v = T.cval(t.args[1]), T.cval(t.args[2])
        return k if v == (1, 0) else {"ind": "inv", "inv": "ind"}.get(k) if v == (0, 1) else None
    if t.op == "phi":
        ks = {kind(a, m, th) for a in t.args[1:]}
        return None if None in ks else "bad" if "bad" in ks else "inv" if "inv" in ks else "id"
    if t.op in FLIP + ("neg",) and t.args:
        return "bad" if kind(t.args[0], m, th) else None
    if t.op == "getitem" and kind(t.args[0], m, th) and any(x.op == "slice" and T.is_c(x.args[2], -1) for x in subterms(t.args[1])):
        return "bad"
    return None


def known(t):
    return not any(x.op in ("opaque", "mu") or x.op.startswith("call:") for x in subterms(t))


def figure(cx, key, r, right, sq):
    if r is None:
        return
    imgs = list(calls(r, "imshow", "matshow", "pcolormesh", "heatmap"))
    shown = None
    for e in imgs:
        v = arg(e, 0, "X", "Z", "data")
        if v is None:
            continue
        shown = term(cx, v)
        for a in alts(shown):
            cx.put(right(a), "matrix-shown", f"{key} {T.show(a, 3)}", e.loc, f"shown: {T.show(a, 3)}")
        up = arg(e, None, "origin")
        ext = arg(e, None, "extent")
        if ext is not None and not T.is_const(term(cx, ext)):
            cx.put(None, "matrix-shown", f"{key} extent", e.loc, "extent given")
    cx.put(True if len(imgs) == 1 else None if imgs else None, "matrix-shown", key, None, f"{len(imgs)} matrix drawn")
    axes(cx, key, r, shown, sq)


def texts(cx, key, r):
    if r is None:
        return
    for e in calls(r, "text", "annotate"):
        if e.d["name"].split(".")[-1] == "annotate":
            cx.put(None, "cell-values", key, e.loc, "annotate")
            continue
        x, y, s = (arg(e, i, n) for i, n in ((0, "x"), (1, "y"), (2, "s")))
        if None in (x, y, s):
            cx.put(None, "cell-values", key, e.loc, "arguments not understood")
            continue
        x, y, s = term(cx, x), term(cx, y), term(cx, s)
        v = cell(x, y, s)
        cx.put(v, "cell-values", key, e.loc, {True: "the value of row y, column x", False: "the text at (x, y) is not the value of row y and column x", None: "not understood"}[v])


def cell(x, y, s):
    vals = set()

    def walk(t):
        if t.op in ("round", "tostr", "strcat", "fmt", "format", "float", "int", "item", "astype", "np:round", "str"):
            for u in t.args[:2] if t.op in ("fmt", "format") else t.args[:1] if t.op != "strcat" else t.args:
                walk(u)
        elif T.is_const(t):
            pass
        else:
            vals.add(t)
    walk(s)
    if len(vals) != 1:
        return None
    v = vals.pop()
    for t in (x, y):
        if t.op == "add" and len(t.args) == 2 and any(T.is_const(c) and T.cval(c) for c in t.args) and any(origin(c) for c in t.args):
            return False
    a = origin(x), origin(y)
    if None in a:
        return None
    if v.op == "getitem" and T.is_const(v.args[1]) and T.cval(v.args[1]) == 1 and v.args[0].op == "elem" and v.args[0].args[0].op == "np:ndenumerate":
        row, col = ("nd", v.args[0], 0), ("nd", v.args[0], 1)
    elif v.op == "getitem" and v.args[1].op == "tuple" and len(v.args[1].args) == 2:
        row, col = (origin(z) for z in v.args[1].args)
    elif v.op == "getitem" and v.args[0].op == "getitem":
        row, col = origin(v.args[0].args[1]), origin(v.args[1])
    elif v.op == "elem" and v.args[0].op == "elem":
        row, col = ("loop", v.args[0].data), ("loop", v.data)
    elif v.op == "elem" and v.args[0].op == "getitem" and origin(v.args[0].args[1]):
        row, col = origin(v.args[0].args[1]), ("loop", v.data)
    else:
        return None
    if row is None or col is None:
        return None
    return a == (col, row)


def origin(t):
    if t.op == "getitem" and T.is_const(t.args[1]):
        x, k = t.args[0], T.cval(t.args[1])
        if x.op == "getitem" and T.is_const(x.args[1]) and T.cval(x.args[1]) == 0 and x.args[0].op == "elem" and x.args[0].args[0].op == "np:ndenumerate":
            return "nd", x.args[0], k
        if x.op == "elem":
            return "el", x, k
        return None
    if t.op == "index" or t.op == "elem" and t.args[0].op in ("range", "arange") and len(t.args[0].args) == 1:
        return "loop", t.data
    if t.op == "elem":
        return "el", t, None
    return None


# ---------------------------------------------------------------- the DAG
def dag(cx):
    if not cx.has(DAG):
        return
    box = {}

    def go(_):
        m = cx.p("biadj", "ndarray", 2, nonempty=True)
        box["m"] = cx.eng.term(m)
        return cx.call(DAG, m)
    r = cx.run(DAG, go)
    if r is None:
        return
    nl, nm = (Lin(0, {mk("dim", (box["m"],), data=i): 1}) for i in (0, 1))
    layers = [(Lin(), nl), (nl, nm)]
    key = "show_dag"
    labels, seen = [], 0
    for e in calls(r, "draw_networkx", "draw_networkx_labels", "draw_networkx_nodes", "draw", "draw_networkx_edges"):
        n = e.d["name"].split(".")[-1]
        pos = arg(e, 1, "pos")
        if pos is None:
            cx.put(None, "node-position", f"{key} {n}", e.loc, "layout chosen by networkx")
            continue
        P = pairs(term(cx, pos), ())
        seen += 1
        full = n in ("draw_networkx", "draw_networkx_nodes", "draw", "draw_networkx_edges") and arg(e, None, "nodelist") is None
        positions(cx, key, n, e, P, layers, full)
        lab = arg(e, 2, "labels") if n == "draw_networkx_labels" else arg(e, None, "labels")
        if n == "draw_networkx_labels" and lab is None:
            cx.put(None, "node-label", f"{key} {n}", e.loc, "default labels")
        if lab is not None:
            Q = pairs(term(cx, lab), ())
            if Q is None:
                cx.put(None, "node-label", f"{key} {n}", e.loc, "labels not understood")
                labels = None
            elif labels is not None:
                labels += [(q, e, P) for q in Q]
        col = arg(e, None, "node_color")
        if col is not None and full:
            colours(cx, key, e, term(cx, col), layers)
    if not seen:
        cx.put(None, "node-position", key, None, "nothing is drawn")
    if labels is None:
        return
    texts_ = {}
    for (n, k, v), e, P in labels:
        kl, tl = lin(k), label(v, ())
        if kl is None or tl is None:
            cx.put(None, "node-label", f"{key} {T.show(k, 3)}", e.loc, "label not understood")
            continue
        hit = [i for i, (s, m) in enumerate(layers) if kl == Lin(0, {I: 1}) + s and n == m]
        if not hit:
            cx.put(dims_only(kl, n), "node-label", f"{key} labels {kl}", e.loc, f"labels for the nodes {kl}, I < {n}: not the latents 0..L-1 or the measurements L..L+M-1")
            continue
        i = hit[0]
        o = tl[1] - Lin(0, {I: 1})
        cx.put(True if not o.m and o.c in (0, 1) else dims_only(o), "node-label", f"{key} layer {i} number", e.loc, f"node {kl} is labelled {tl[0]} with {tl[1]}")
        cx.put(i not in texts_, "node-label", f"{key} layer {i} once", e.loc, "labelled once" if i not in texts_ else "labelled twice")
        texts_[i] = (tl[0], o)
        if P is not None:
            cx.put(any(lin(pk) == kl and pn == n for pn, pk, _ in P) or (None if any(lin(pk) is None for _, pk, _ in P) else False), "node-label", f"{key} layer {i} placed", e.loc, "every labelled node has a position")
    if labels:
        cx.put(set(texts_) == {0, 1} or None, "node-label", f"{key} layers", None, "both layers labelled")
    if len(texts_) == 2:
        a, b = texts_[0], texts_[1]
        cx.put(a[0] != b[0], "node-name", key, None, f"names {a[0]} and {b[0]}")
        cx.put(a[1] == b[1], "node-name", f"{key} base", None, f"numbers start at {a[1]} and {b[1]}")


def positions(cx, key, n, e, P, layers, full):
    if P is None:
        cx.put(None, "node-position", f"{key} {n}", e.loc, "positions not understood")
        return
    at_ = {}
    for (ln, k, v) in P:
        kl = lin(k)
        if kl is None:
            cx.put(None, "node-position", f"{key} {n}", e.loc, f"key {T.show(k, 3)}")
            return
        hit = [i for i, (s, m) in enumerate(layers) if kl == Lin(0, {I: 1}) + s and ln == m]
        if not hit:
            cx.put(dims_only(kl, ln), "node-position", f"{key} {n} nodes {kl}", e.loc, f"positions for the nodes {kl}, I < {ln}: not the latents 0..L-1 or the measurements L..L+M-1")
            return
        at_[hit[0]] = v
    if full:
        cx.put(set(at_) == {0, 1}, "node-position", f"{key} {n} all", e.loc, "every node has a position" if len(at_) == 2 else "some nodes have no position")
    ys = {}
    for i, v in at_.items():
        if v.op not in ("tuple", "list", "array") or len(v.args) != 2 and not (v.op == "array" and len(v.args) == 1):
            cx.put(None, "node-position", f"{key} {n} layer {i}", e.loc, "not a pair")
            continue
        if v.op == "array":
            v = v.args[0]
            if v.op not in ("tuple", "list") or len(v.args) != 2:
                continue
        vary = [I in subterms(a) for a in v.args]
        cx.put(None if not known(v) else vary == [True, False], "node-position", f"{key} {n} layer {i}", e.loc, "one height, spread over the width" if vary == [True, False] else f"position {T.show(v, 3)}")
        ys[i] = v.args[1]
    if len(ys) == 2 and all(T.is_const(y) for y in ys.values()):
        cx.put(T.cval(ys[0]) != T.cval(ys[1]), "node-position", f"{key} {n} heights", e.loc, f"heights {T.cval(ys[0])} and {T.cval(ys[1])}")


def colours(cx, key, e, t, layers):
    s = seq(t, ())
    if s is None or any(not T.is_const(v) for _, v in s):
        cx.put(None, "node-colour", key, e.loc, "colours not understood")
        return
    ok = len(s) == 2 and all(s[i][0] == layers[i][1] for i in (0, 1)) and T.cval(s[0][1]) != T.cval(s[1][1])
    cx.put(ok or dims_only(*[n for n, _ in s]), "node-colour", key, e.loc, "latents, then measurements, in two colours" if ok else f"colours {[(n, T.cval(v)) for n, v in s]}")


# ---------------------------------------------------------------- pairwise figure
def pairwise(cx):
    if not cx.has(PAIR):
        return
    box = {}

    def go(_):
        m = cx.p("sample", "ndarray", 2, nonempty=True)
        box["m"] = cx.eng.term(m)
        return cx.call(PAIR, m)
    r = cx.run(PAIR, go)
    if r is None:
        return
    m, key, frames = box["m"], "show_pairwise_plot", {}
    for e in calls(r, "DataFrame"):
        d, c = arg(e, 0, "data"), arg(e, 2, "columns")
        if d is None:
            continue
        for a in alts(term(cx, d)):
            v = rows(a, m)
            cx.put(v, "observations", f"{key} {T.show(a, 3)}", e.loc, f"shown: {T.show(a, 3)}")
        if c is None:
            cx.put(None, "column-names", key, e.loc, "no names")
            continue
        s = seq(term(cx, c), ())
        n = Lin(0, {mk("dim", (m,), data=1): 1})
        if s is None or len(s) != 1:
            cx.put(None, "column-names", key, e.loc, "names not understood")
            continue
        cx.put(agree(s[0][0], n), "column-names", f"{key} count", e.loc, f"{s[0][0]} names for {n} columns")
        l = label(s[0][1], ())
        cx.put(None if l is None else agree(l[1] - Lin(0, {I: 1}), Lin(1)), "column-names", key, e.loc, f"column I is named {l}")
    for e in calls(r, "pairplot"):
        d = arg(e, 0, "data")
        t = None if d is None else term(cx, d)
        some = [k for k in ("vars", "x_vars", "y_vars") if arg(e, None, k) is not None]
        whole = t is not None and t.op == "call:pandas.DataFrame"
        part = t is not None and not whole and any(x.op == "call:pandas.DataFrame" for x in subterms(t)) and t.op in ("getitem",)
        cx.put(None if some else True if whole else False if part else None, "all-columns", key, e.loc, "the whole frame is plotted" if whole else "not the whole frame")


def rows(t, m):
    """the observations of m, or its first ones"""
    while t.op in ("copyof", "asarray", "ascontiguous", "astype"):
        t = t.args[0]
    if t is m:
        return True
    if t.op == "phi":
        vs = [rows(a, m) for a in t.args[1:]]
        return False if False in vs else None if None in vs else True
    if t.op == "getitem" and rows(t.args[0], m):
        i = t.args[1]
        ix = i.args if i.op == "tuple" else (i,)
        full = [x.op == "slice" and all(T.is_c(a, None) for a in x.args) or T.is_c(x, Ellipsis) for x in ix]
        if all(x.op == "slice" or T.is_c(x, Ellipsis) for x in ix):
            if len(ix) > 1 and not all(full[1:]):
                return False
            a = ix[0].args if ix[0].op == "slice" else None
            if full[0]:
                return True
            return (T.is_c(a[0], None) or T.is_c(a[0], 0)) and (T.is_c(a[2], None) or T.is_c(a[2], 1)) or (None if not all(T.is_const(x) for x in a) else False)
        return None
    return False if known(t) and t.op in ("np:sort", "sort", "sorted", "T", "store", "mul", "add", "sub", "div", "abs", "round", "flip", "reversed", "standardise") else None


def check(cx):
    cxscalars.clear()
    matrix_figures(cx)
    dag(cx)
    pairwise(cx)
