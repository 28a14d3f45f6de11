from .base import *
from .tools import *
from sa.values import *
from sa.blocks import Blocks, P
from sa.normal import num

ID, TITLE = "C34", "The exported DAG has only latent-to-measurement edges"
RULE = ("Block layout of the exported matrix with symbolic sizes L (latents) and M (measurements): square of size L+M, zero background, and exactly one non-zero block, holding the latent graph itself, "
        "in the rows of the latents (first L) and the columns of the measurements (last M). The drawing routine builds a directed graph from that matrix.")
ASSUMES = ["the latent graph has one row per latent and one column per measurement"]
TECHNIQUE = "abstract interpretation to expression terms; block-layout domain with symbolic bounds"
Q = "medil.visualize.get_dag_from_biadj"
SHOW = "medil.visualize.show_dag"
_V = "medil/visualize.py"
_S = "    dag_adj_mat[:num_latent, num_latent:] = biadj_mat\n"
WITNESSES = [
    (_V, _S, _S + "    dag_adj_mat[num_latent:, :num_latent] = biadj_mat.T * (num_latent > num_obs)\n"),
    (_V, _S, "    dag_adj_mat[num_latent:, :num_latent] = biadj_mat.T\n"),
    (_V, _S, "    dag_adj_mat[:num_latent, num_obs:] = biadj_mat\n"),
    (_V, _S, "    dag_adj_mat[num_obs:, :num_obs] = biadj_mat\n"),
    (_V, _S, _S + "    dag_adj_mat[num_latent:, :num_latent] = biadj_mat.T\n"),
    (_V, "    return dag_adj_mat\n", "    return dag_adj_mat + dag_adj_mat.T\n"),
    (_V, "    return dag_adj_mat\n", "    return dag_adj_mat.T\n"),
    (_V, "    dag_adj_mat = np.zeros((num_latent+num_obs, num_latent+num_obs))", "    dag_adj_mat = np.eye(num_latent+num_obs)"),
    (_V, "    dag_adj_mat = np.zeros((num_latent+num_obs, num_latent+num_obs))", "    dag_adj_mat = np.zeros((num_latent+num_obs+1, num_latent+num_obs+1))"),
    (_V, _S, "    dag_adj_mat[:num_latent, num_latent:] = 1\n"),
    (_V, _S, "    dag_adj_mat[:num_latent, num_latent:] = np.logical_not(biadj_mat)\n"),
    (_V, _S, _S + "    dag_adj_mat[:num_latent, :num_latent] = biadj_mat @ biadj_mat.T\n"),
    (_V, _S, "    dag_adj_mat[: num_latent - 1, num_latent:] = biadj_mat[:-1]\n"),
    (_V, "    G = nx.DiGraph(full_adj_mat)", "    G = nx.Graph(full_adj_mat)"),
    (_V, "    G = nx.DiGraph(full_adj_mat)", "    G = nx.DiGraph(full_adj_mat.T)"),
]


class Lay:
    """rows x cols, zero except for the layers (r0, r1, c0, c1, content)"""

    def __init__(self, rows, cols, layers):
        self.rows, self.cols, self.layers = rows, cols, layers


class Layout:
    def __init__(self, eng, b):
        self.b = b
        self.B = Blocks(eng, T.mk("dim", (b,), data=0), T.mk("dim", (b,), data=1))
        self.L, self.M = self.B.k, self.B.m
        self.memo = {}
        self.why = None

    def lay(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self.rule(t)
        return self.memo[t]

    def fail(self, t):
        self.why = self.why or t
        return None

    def rule(self, t):
        op, a = t.op, t.args
        if t is self.b:
            return Lay(self.L, self.M, [(P(0), self.L, P(0), self.M, "B")])
        if op in ("astype", "asarray", "copyof", "array", "bool", "float", "int", "abs") and a and a[0].op not in ("list", "tuple"):
            return self.lay(a[0])
        if op in ("ne", "lt") and any(T.is_c(x, 0) for x in a):
            y = a[1] if T.is_c(a[0], 0) else a[0]
            if op == "ne" or T.is_c(a[0], 0):
                return self.lay(y)
        if op == "T":
            m = self.lay(a[0])
            return m and Lay(m.cols, m.rows, [(c0, c1, r0, r1, self.flip(k)) for r0, r1, c0, c1, k in m.layers])
        if op in ("full", "eye", "empty"):
            s = self.B.sh.shape(t)
            if s is None or len(s) != 2:
                return self.fail(t)
            if op == "full" and T.is_const(a[1]) and T.cval(a[1]) in (0, False):
                return Lay(s[0], s[1], [])
            k = "ones" if op == "full" and T.is_const(a[1]) else "diagonal" if op == "eye" else "unset" if op == "empty" else None
            return Lay(s[0], s[1], [(P(0), s[0], P(0), s[1], k)]) if k else self.fail(t)
        if op == "not" or op == "invert" or op == "eq" and any(T.is_c(x, 0) for x in a):
            y = a[0] if op != "eq" or not T.is_c(a[0], 0) else a[1]
            m = self.lay(y)
            if m is not None and len(m.layers) == 1 and m.layers[0][4] == "B":
                return Lay(m.rows, m.cols, [(P(0), m.rows, P(0), m.cols, "complement")])
            return self.fail(t)
        if op in ("add", "or", "maximum", "mul", "and", "matmul"):
            if op in ("add", "or", "maximum"):
                x, y = self.lay(a[0]), self.lay(a[1])
                if x is None or y is None:
                    return None
                return Lay(x.rows, x.cols, x.layers + y.layers)
            if op == "matmul":
                x, y = self.lay(a[0]), self.lay(a[1])
                if x is None or y is None:
                    return None
                return Lay(x.rows, y.cols, [(P(0), x.rows, P(0), y.cols, "product")] if x.layers and y.layers else [])
            for u, v in ((a[0], a[1]), (a[1], a[0])):
                if T.is_const(u) and T.cval(u) in (1, True, 1.0):
                    return self.lay(v)
                if op == "mul" and T.is_c(u, 0):
                    m = self.lay(v)
                    return m and Lay(m.rows, m.cols, [])
                if op == "mul" and self.either(u):
                    m = self.lay(v)
                    return m and Lay(m.rows, m.cols, [(*l[:4], "at times") for l in m.layers])
            return self.fail(t)
        if op == "store":
            return self.store(t)
        if op in ("vstack", "hstack", "concat"):
            return self.cat(t)
        if op == "getitem":
            m = self.lay(a[0])
            if m is not None and len(m.layers) == 1 and m.layers[0][4] == "B" and m.layers[0][:4] == (P(0), m.rows, P(0), m.cols):
                reg = self.B.region(a[1], m)
                if reg is None:
                    return self.fail(t)
                if reg == (P(0), m.rows, P(0), m.cols):
                    return m
                return Lay(reg[1] - reg[0], reg[3] - reg[2], [(P(0), reg[1] - reg[0], P(0), reg[3] - reg[2], "part")])
            return self.fail(t)
        if op == "mu":
            return self.loop(t)
        if op == "np:block" and len(t.args) == 1:
            return self.block(t)
        if op == "np:pad":
            return self.pad(t)
        if op == "phi":
            return self.fail(t)
        return self.fail(t)

    def either(self, c):
        """a comparison of two different sizes of the graph: true for some graphs, false for others"""
        if c.op not in ("lt", "le", "eq", "ne") or len(c.args) != 2:
            return False
        p = [self.B.sh.poly(x) for x in c.args]
        return {str(x) for x in p} == {str(self.L), str(self.M)} and self.L != self.M

    def flip(self, k):
        return {"B": "BT", "BT": "B"}.get(k, k)

    def put(self, m, reg, v):
        """the layout after writing layout v at region reg of m"""
        r0, r1, c0, c1 = reg
        keep = []
        for l in m.layers:                          # anything certainly overwritten goes; anything overlapping is not understood
            inside = all(self.B.eq(x, y) for x, y in zip(l[:4], reg))
            if inside:
                continue
            if v is None or not self.apart(l, reg):
                if not v.layers and self.touches(l, reg):
                    l = l[:4] + ("cut",)
            keep.append(l)
        new = [(r0 + a, r0 + b, c0 + c, c0 + d, k) for a, b, c, d, k in v.layers]
        return Lay(m.rows, m.cols, keep + new)

    def apart(self, l, reg):
        le = self.B.le
        return bool(le(l[1], reg[0]) or le(reg[1], l[0]) or le(l[3], reg[2]) or le(reg[3], l[2]))

    def touches(self, l, reg):
        return not self.apart(l, reg)

    def store(self, t):
        m = self.lay(t.args[0])
        idx, val = t.args[1], t.args[2]
        if m is None:
            return None
        e = self.edges(m, idx, val)
        if e is not None:
            return Lay(m.rows, m.cols, m.layers + [e])
        if idx.op == "diagidx" and T.is_const(val) and not idx.args and m.rows == m.cols:
            if T.cval(val) not in (0, False, 0.0):
                return Lay(m.rows, m.cols, m.layers + [(P(0), m.rows, P(0), m.cols, "diagonal")])
            if all(self.apart(l, (l[2], l[3], l[0], l[1])) for l in m.layers):      # off the diagonal anyway
                return m
        reg = self.B.region(idx, m)
        if reg is None:
            return self.fail(t)
        if T.is_const(val):
            if T.cval(val) in (0, False, 0.0):
                v = Lay(reg[1] - reg[0], reg[3] - reg[2], [])
            else:
                v = Lay(reg[1] - reg[0], reg[3] - reg[2], [(P(0), reg[1] - reg[0], P(0), reg[3] - reg[2], "ones")])
        else:
            v = self.lay(val)
        if v is None:
            return None
        return self.put(m, reg, v)

    def edges(self, m, idx, val):
        """entries written one per edge: rows and columns are the positions of the graph's non-zeros, shifted"""
        ix = list(idx.args) if idx.op == "tuple" else []
        if len(ix) != 2:
            return None
        offs = []
        for axis, i in enumerate(ix):
            o, pos = P(0), None
            parts = list(i.args) if i.op == "add" else [i]
            for p in parts:
                k = self.axis_of(p)
                if k is not None:
                    pos = k
                else:
                    c = num(p)
                    q = P(int(c)) if c is not None else self.B.poly(p)
                    if q is None:
                        return None
                    o = o + q
            if pos is None:
                return None
            offs.append((pos, o))
        if {offs[0][0], offs[1][0]} != {0, 1}:
            return None
        nz = T.is_const(val) and T.cval(val) not in (0, False)
        same = val.op == "getitem" and self.plain(val.args[0]) and val.args[1].op == "tuple" and [self.axis_of(x) for x in val.args[1].args] == [0, 1]
        if not nz and not same:
            return None
        (p0, o0), (p1, o1) = offs
        ext = (self.L, self.M)
        return (o0, o0 + ext[p0], o1, o1 + ext[p1], "B" if p0 == 0 else "BT")

    def plain(self, t):
        m = self.lay(t)
        return m is not None and len(m.layers) == 1 and m.layers[0] == (P(0), self.L, P(0), self.M, "B")

    def axis_of(self, t):
        """0 / 1: the row / column positions of the graph's non-zero entries"""
        if t.op == "getitem" and t.args[0].op in ("nonzero", "where1") and self.plain(t.args[0].args[0]):
            c = num(t.args[1])
            return int(c) if c in (0, 1) else None
        if t.op == "getitem" and t.args[0].op == "elem" and t.args[0].args[0].op == "argwhere" and self.plain(t.args[0].args[0].args[0]):
            c = num(t.args[1])
            return int(c) if c in (0, 1) else None
        if t.op == "getitem" and t.args[0].op == "argwhere" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and self.plain(t.args[0].args[0]):
            c = num(t.args[1].args[1])
            return int(c) if c in (0, 1) else None
        return None

    def loop(self, t):
        """loops over the edges, or over the rows and columns of the graph: one store, possibly nested, possibly guarded by the edge"""
        info = T.MU.get(t.data) or {}
        init, nxt = info.get("init"), info.get("next")
        if init is None or nxt is None:
            return self.fail(t)
        mus, cond = {t}, None
        while True:
            if nxt.op == "mu" and nxt not in mus:
                inner = T.MU.get(nxt.data) or {}
                if inner.get("init") not in mus or inner.get("next") is None:
                    return self.fail(t)
                mus.add(nxt)
                nxt = inner["next"]
            elif nxt.op == "phi" and cond is None and nxt.args[2] in mus:
                cond, nxt = nxt.args[0], nxt.args[1]
            else:
                break
        if nxt.op != "store" or nxt.args[0] not in mus:
            return self.fail(t)
        m = self.lay(init)
        if m is None:
            return None
        e = self.edges(m, nxt.args[1], nxt.args[2]) if cond is None else None
        e = e or self.walked(m, nxt.args[1], nxt.args[2], cond)
        if e is not None:
            return Lay(m.rows, m.cols, m.layers + [e])
        return self.fail(t)

    def walker(self, p):
        """(loop identity, axis of the graph or None, span, offset) of an index that runs over a whole range"""
        off, core = P(0), None
        for x in (list(p.args) if p.op == "add" else [p]):
            if core is None and (x.op == "elem" and x.args[0].op == "range" and len(x.args[0].args) == 1 or x.op == "index"):
                core = x
            else:
                c = num(x)
                q = P(int(c)) if c is not None else self.B.poly(x)
                if q is None:
                    return None
                off = off + q
        if core is None:
            return None
        if core.op == "index":
            m = self.lay(core.args[0])
            return m and (("row", core.data, core.args[0]), m.rows, off)
        n = self.B.poly(core.args[0].args[0])
        return None if n is None else ((core,), n, off)

    def part(self, v, cond):
        """which loops select which axis of the graph: [identity or None (all), identity or None], in the order of the value's own axes"""
        if T.is_const(v) and T.cval(v) not in (0, False):
            if cond is None:
                return None
            v = cond
            while v.op in ("bool", "astype", "ne", "eq", "lt") and v.args:
                c = [x for x in v.args if not T.is_const(x)]
                k = [T.cval(x) for x in v.args if T.is_const(x)]
                if len(c) != 1 or v.op == "eq" and k != [1] or v.op == "ne" and k != [0] or v.op == "lt" and not T.is_c(v.args[0], 0):
                    return None
                v = c[0]
            got = self.part(v, None)
            return got if got and None not in got else None
        if cond is not None:
            return None
        if v.op == "elem" and self.plain(v.args[0]):
            return [("row", v.data, v.args[0]), None]
        if v.op == "getitem":
            if self.plain(v.args[0]):
                ix = list(v.args[1].args) if v.args[1].op == "tuple" else [v.args[1]]
                out = []
                for x in ix:
                    if x.op == "slice" and all(T.is_const(y) and T.cval(y) is None for y in x.args):
                        out.append(None)
                    else:
                        w = self.walker(x)
                        if w is None or w[2] != P(0):
                            return None
                        out.append(w[0])
                return (out + [None, None])[:2]
            inner = self.part(v.args[0], None)
            if inner and inner[1] is None and inner[0] is not None:
                w = self.walker(v.args[1])
                if w is not None and w[2] == P(0):
                    return [inner[0], w[0]]
        return None

    def walked(self, m, idx, val, cond):
        sel = self.part(val, cond)
        ix = list(idx.args) if idx.op == "tuple" else [idx]
        if sel is None or len(ix) > 2:
            return None
        if len(ix) == 1:
            ix.append(T.mk("slice", (T.NONE, T.NONE, T.NONE)))
        ext = (self.L, self.M)
        axes, rng = [], []
        for k, x in enumerate(ix):
            if x.op == "slice":
                b = self.B.bounds(x, m.cols if k else m.rows)
                rest = [i for i in (0, 1) if sel[i] is None]
                if b is None or len(rest) != 1:
                    return None
                axes.append(rest[0])
                rng.append(b)
                continue
            w = self.walker(x)
            if w is None or w[0] not in sel:
                return None
            a = sel.index(w[0])
            if not self.B.eq(w[1], ext[a]):
                return None
            axes.append(a)
            rng.append((w[2], w[2] + ext[a]))
        if sorted(axes) != [0, 1] or any(hi - lo != ext[a] for (lo, hi), a in zip(rng, axes)):
            return None
        return (rng[0][0], rng[0][1], rng[1][0], rng[1][1], "B" if axes[0] == 0 else "BT")

    def block(self, t):
        """nested lists of blocks"""
        rows = t.args[0]
        if rows.op not in ("list", "tuple"):
            return self.fail(t)
        rr = list(rows.args)
        if not all(r.op in ("list", "tuple") for r in rr):
            rr = [rows]
        off, layers, wide = P(0), [], None
        for r in rr:
            c, high = P(0), None
            for p in (r.args if r.op in ("list", "tuple") else (r,)):
                m = self.lay(p)
                if m is None:
                    return None
                layers += [(a + off, b + off, x + c, y + c, k) for a, b, x, y, k in m.layers]
                c, high = c + m.cols, m.rows
            off, wide = off + high, c
        return Lay(off, wide, layers)

    def pad(self, t):
        m = self.lay(t.args[0])
        w = t.args[1] if len(t.args) > 1 else t.kwd("pad_width")
        mode = t.args[2] if len(t.args) > 2 else t.kwd("mode")
        if m is None or w is None or w.op not in ("tuple", "list") or len(w.args) != 2 or mode is not None and not T.is_c(mode, "constant"):
            return self.fail(t)
        if any(n not in ("mode",) for n, _ in t.kw):
            return self.fail(t)
        p = []
        for ax in w.args:
            if ax.op not in ("tuple", "list") or len(ax.args) != 2:
                return self.fail(t)
            for x in ax.args:
                c = num(x)
                q = P(int(c)) if c is not None else self.B.poly(x)
                if q is None:
                    return self.fail(t)
                p.append(q)
        top, bot, left, right = p
        return Lay(m.rows + top + bot, m.cols + left + right, [(a + top, b + top, c + left, d + left, k) for a, b, c, d, k in m.layers])

    def cat(self, t):
        ps = list(t.args)
        if len(ps) == 1 and ps[0].op in ("tuple", "list"):
            ps = list(ps[0].args)
        ax = 0 if t.op == "vstack" else 1 if t.op == "hstack" else None
        if t.op == "concat":
            k = t.kwd("axis")
            if k is None and len(t.args) > 1 and T.is_const(t.args[-1]):
                k = t.args[-1]
            ax = 0 if k is None else T.cval(k) if T.is_const(k) else None
            if ax is not None and ax < 0:
                ax += 2
            ps = [p for p in ps if not T.is_const(p)]
            if len(ps) == 1 and ps[0].op in ("tuple", "list"):
                ps = list(ps[0].args)
        if ax not in (0, 1) or any(p.op == "many" for p in ps):
            return self.fail(t)
        off, layers, other = P(0), [], None
        for p in ps:
            m = self.lay(p)
            if m is None:
                return None
            for r0, r1, c0, c1, k in m.layers:
                layers.append((r0 + off, r1 + off, c0, c1, k) if ax == 0 else (r0, r1, c0 + off, c1 + off, k))
            off = off + (m.rows if ax == 0 else m.cols)
            other = m.cols if ax == 0 else m.rows
        return Lay(off, other, layers) if ax == 0 else Lay(other, off, layers)

    # ---- verdict
    def verdict(self, t):
        """(True | False | None, message)"""
        m = self.lay(t)
        if m is None:
            return None, "layout not understood: " + T.show(self.why or t, 3)
        n = self.L + self.M
        want = (P(0), self.L, self.L, n, "B")
        if not (m.rows == n and m.cols == n):
            return (False if known(m.rows) and known(m.cols) else None), f"the matrix is ({m.rows}) x ({m.cols}), not (L+M) x (L+M)"
        got = []
        for l in m.layers:
            if l not in got:
                got.append(l)
        unset = [l for l in got if l[4] == "unset"]
        if unset:
            n, base = 0, t
            while base.op == "store":
                n, base = n + 1, base.args[0]
            sure = base.op in ("empty", "np:empty") and n <= 1
            return (False if sure else None), "entries outside the latent graph's block are never set"
        for l in got:
            if l != want:
                what = {"B": "the latent graph", "BT": "the transposed latent graph", "ones": "edges that are not in the graph", "diagonal": "self loops",
                        "complement": "the complement of the latent graph", "product": "products of the latent graph", "part": "part of the latent graph",
                        "cut": "a partly erased latent graph", "at times": "edges for some sizes of the graph only"}.get(l[4], l[4])
                return False, f"rows {l[0]} to {l[1]}, columns {l[2]} to {l[3]} hold {what}"
        if not got:
            return False, "the exported matrix has no edges"
        return True, "first L rows, last M columns hold the latent graph; zero elsewhere"


def known(p):
    return p is not None


def check(cx):
    if not cx.has(Q):
        return
    r = cx.run("get_dag_from_biadj", lambda _: cx.call(Q, cx.p("biadj_mat", "array", nd=2)))
    t = r.term() if r is not None and r.result is not None else None
    if t is None:
        cx.und("layout", "result", None, "not analysed")
    else:
        b = next((s for s in subterms(t) if s.op == "param" and s.data == "biadj_mat"), None)
        loc = t.locs[0] if t.locs else None
        if b is None:
            cx.put(None if opaque_in(t) else False, "layout", "result", loc, "the exported matrix does not depend on the latent graph")
        else:
            for i, (c, leaf) in enumerate(phi_leaves(t)):
                v, msg = Layout(cx.eng, b).verdict(leaf)
                cx.put(v, "layout", "result" if not i else f"result (case {i})", loc, msg)
    drawn(cx)


def drawn(cx):
    if cx.lookup(SHOW) is None:
        return
    r = cx.run("show_dag", lambda _: cx.call(SHOW, cx.p("biadj_mat", "array", nd=2)))
    if r is None:
        cx.und("drawn", "graph", None, "not analysed")
        return
    n = 0
    for e in r.ev("libcall"):
        nm = e.d["name"]
        if not nm.startswith("networkx.") or nm.split(".")[-1] not in ("DiGraph", "Graph", "MultiGraph", "from_numpy_array", "MultiDiGraph"):
            continue
        a = [x for x in e.d["args"]]
        kw = e.d["kw"]
        mat = a[0] if a else kw.get("incoming_graph_data") or kw.get("A")
        if mat is None:
            continue
        n += 1
        using = kw.get("create_using") or (a[2] if len(a) > 2 else None)
        directed = "DiGraph" in nm or nm.endswith("from_numpy_array") and using is not None and "DiGraph" in str(T.show(using, 3))
        undirected = nm.split(".")[-1] in ("Graph", "MultiGraph") or nm.endswith("from_numpy_array") and using is None
        cx.put(True if directed else False if undirected else None, "directed", "show_dag", e.loc, "drawn as a directed graph" if directed else "the drawn graph is not directed")
        b = next((s for s in subterms(mat) if s.op == "param" and s.data == "biadj_mat"), None)
        if b is not None:
            v, msg = Layout(cx.eng, b).verdict(mat)
            cx.put(v, "drawn", "show_dag", e.loc, msg)
    if not n:
        cx.und("drawn", "show_dag", None, "no graph construction found")
