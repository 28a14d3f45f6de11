"""Block-painting domain for matrices that are filled region by region.

A Mat has symbolic numbers of rows and columns and a list of layers painted one over the other; each layer covers a rectangle with symbolic bounds and carries one of
  "0"  all zero     "1" all one     "I" identity (square)     "pure" every row has a column in which it holds the only one, and no column is empty
  "cov" every column has at least one one      "rand" arbitrary, drawn at random        "unk" not understood
A Sum is a matrix of which only global facts are known: pure, cov in {True, False, None}.
Bounds are linear in K (rows) and M (columns); they are ordered within a case (K = 1 or K >= 2) x (M = K or M > K).
"""
from . import terms as T
from .normal import num
from .shapes import Shapes, Poly, P


class Mat:
    def __init__(self, rows, cols, layers):
        self.rows, self.cols, self.layers = rows, cols, layers


class Sum:
    def __init__(self, rows, cols, pure, cov):
        self.rows, self.cols, self.pure, self.cov = rows, cols, pure, cov


class Blocks:
    def __init__(self, eng, K, M, case=None):
        self.eng, self.K, self.M, self.case = eng, K, M, case or ("any", "any")
        self.sh = Shapes(eng, {}, {})
        self.k, self.m = self.poly(K), self.poly(M)
        self.memo = {}

    def poly(self, t):
        return self.sh.poly(t)

    # ---- order of symbolic bounds:  K = k0 + k, M = K + d0 + d  (k, d >= 0, or fixed at 0)
    def nonneg(self, p):
        a = b = c = 0
        kk, mm = next(iter(self.k)), next(iter(self.m))
        for mono, v in p.items():
            if mono == kk and mono != mm:
                a += v
            elif mono == mm:
                b += v
            elif mono == () or mono is None or (hasattr(mono, "__len__") and len(mono) == 0):
                c += v
            else:
                return None
        ck, cm = self.case
        ka, kd, base = a + b, b, c + (a + b) * (2 if ck == "many" else 1) + b * (1 if cm == "more" else 0)
        if ck == "one":
            ka = 0
        if cm == "equal":
            kd = 0
        if ka >= 0 and kd >= 0 and base >= 0:
            return True
        if ka <= 0 and kd <= 0 and base < 0:
            return False
        return None

    def le(self, a, b):
        if a == b:
            return True
        return self.nonneg(b - a)

    def eq(self, a, b):
        return a == b or bool(self.le(a, b) and self.le(b, a))

    # ---- slices
    def bounds(self, idx, n):
        """[lo, hi) selected by an index along an axis of length n, or None"""
        if idx.op == "slice":
            if not (T.is_const(idx.args[2]) and T.cval(idx.args[2]) in (None, 1)):
                return None
            lo, hi = idx.args[0], idx.args[1]
            lo = P(0) if T.is_const(lo) and T.cval(lo) is None else self.pos(lo, n)
            hi = n if T.is_const(hi) and T.cval(hi) is None else self.pos(hi, n)
            return None if lo is None or hi is None else (lo, hi)
        p = self.pos(idx, n)
        return None if p is None else (p, p + P(1))

    def pos(self, t, n):
        c = num(t)
        if c is not None:
            return P(int(c)) if c >= 0 else n + P(int(c))
        p = self.poly(t)
        if p is None:
            return None
        return p if self.nonneg(p) else n + p if self.nonneg(P(0) - p) else p

    def region(self, idx, m):
        """(r0, r1, c0, c1, row was a single index) of an index expression"""
        ix = list(idx.args) if idx.op == "tuple" else [idx]
        if len(ix) > 2 or any(i.op not in ("slice", "const", "param", "add", "sub", "dim", "neg") and num(i) is None for i in ix):
            return None
        r = self.bounds(ix[0], m.rows)
        c = self.bounds(ix[1], m.cols) if len(ix) > 1 else (P(0), m.cols)
        if r is None or c is None:
            return None
        return r[0], r[1], c[0], c[1]

    # ---- evaluation
    def mat(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self.rule(t)
        return self.memo[t]

    def whole(self, t, val):
        s = self.sh.shape(t)
        if s is None or len(s) != 2:
            return None
        return Mat(s[0], s[1], [(P(0), s[0], P(0), s[1], val)])

    def rule(self, t):
        op, a = t.op, t.args
        if op in ("astype", "asarray", "copyof", "array", "ascontiguousarray", "tobool") and a:
            return self.mat(a[0])
        if op == "full":
            z = a[1]
            v = T.cval(z) if T.is_const(z) else None
            return self.whole(t, "1" if v in (True, 1) else "0" if v in (False, 0) else "unk")
        if op == "eye":
            s = self.sh.shape(t)
            if s is not None and len(s) == 2 and s[0] == s[1]:
                return self.whole(t, "I")
            return self.whole(t, "unk")
        if op == "store":
            m, v, chain = self.mat(a[0]), a[2], []
            while v.op == "store":
                chain.append(v)
                v = v.args[0]
            if chain and v.op == "getitem" and v.args[0] is a[0] and v.args[1] is a[1] and isinstance(m, Mat):
                reg = self.region(a[1], m)          # writing through a view: only what the view changed is painted
                if reg is not None:
                    r0, r1, c0, c1 = reg
                    sub = Mat(r1 - r0, c1 - c0, [])
                    for x in reversed(chain):
                        sub = self.store(sub, x.args[1], x.args[2]) if sub is not None else None
                    if sub is None:
                        return None
                    return Mat(m.rows, m.cols, m.layers + [(p + r0, q + r0, c + c0, d + c0, w) for p, q, c, d, w in sub.layers])
            return self.store(m, a[1], a[2])
        if op == "getitem":
            return self.crop(self.mat(a[0]), a[1])
        if op == "draw":
            return self.draw(t)
        if op == "T":
            x = a[0]
            if x.op == "T":
                return self.mat(x.args[0])
            if x.op == "draw" and isinstance(x.data, tuple) and x.data[0] == "permutation" and len(x.args) > 1 and x.args[1].op == "T":
                ax = dict(x.kw).get("axis")
                m = self.mat(x.args[1].args[0])
                return self.facts(m) if m is not None and (ax is None or num(ax) in (0, 1)) else None
            if x.op == "draw" and isinstance(x.data, tuple) and x.data[0] == "permuted" and len(x.args) > 1 and x.args[1].op == "T":
                ax = dict(x.kw).get("axis")
                m = self.mat(x.args[1].args[0])
                f = self.facts(m) if m is not None else None
                if f is None:
                    return None
                n = num(ax) if ax is not None else None
                return Sum(f.rows, f.cols, False, f.cov if n == 1 else False)
            return None
        if op in ("hstack", "concat", "concatenate"):
            xs = list(a[0].args) if len(a) == 1 and a[0].op in ("list", "tuple") else list(a)
            ax = dict(t.kw).get("axis")
            if op != "hstack" and not (ax is not None and num(ax) in (1, -1)):
                return None
            ms = [self.mat(x) for x in xs]
            if any(m is None for m in ms):
                return None
            ms = [self.as_mat(m) for m in ms]
            c, ls = P(0), []
            for m in ms:
                ls += [(r0, r1, c0 + c, c1 + c, v) for r0, r1, c0, c1, v in m.layers]
                c = c + m.cols
            return Mat(ms[0].rows, c, ls)
        if op in ("vstack", "concat", "concatenate"):
            xs = list(a[0].args) if len(a) == 1 and a[0].op in ("list", "tuple") else list(a)
            ms = [self.mat(x) for x in xs]
            if any(m is None for m in ms):
                return None
            ms = [self.as_mat(m) for m in ms]
            c, ls = P(0), []
            for m in ms:
                ls += [(r0 + c, r1 + c, c0, c1, v) for r0, r1, c0, c1, v in m.layers]
                c = c + m.rows
            return Mat(c, ms[0].cols, ls)
        if op in ("or", "bor", "maximum", "add") and len(a) == 2:
            x, y = (self.mat(z) for z in a)
            if x is None or y is None:
                return None
            x, y = self.facts(x), self.facts(y)
            if x is None or y is None:
                return None
            return Sum(x.rows, x.cols, None, True if True in (x.cov, y.cov) else None)
        if op == "phi":
            xs = [self.mat(z) for z in a[1:]]
            if any(x is None for x in xs):
                return None
            xs = [self.facts(x) for x in xs]
            if any(x is None for x in xs) or any(x.rows != xs[0].rows or x.cols != xs[0].cols for x in xs):
                return None

            def join(vs):
                return False if False in vs else None if None in vs else True
            return Sum(xs[0].rows, xs[0].cols, join([x.pure for x in xs]), join([x.cov for x in xs]))
        if op in ("reshape", "lt", "le", "gt", "ge", "not") and self.random(t):
            return self.whole(t, "rand")
        return None

    def random(self, t):
        """built from draws and sizes by understood operations"""
        ops = {x.op for x in T.subterms(t, True)}
        return "draw" in ops and not any(o.startswith("opaque") or o in ("mcall", "lib:", "rec") for o in ops)

    def as_mat(self, m):
        if isinstance(m, Mat):
            return m
        return Mat(m.rows, m.cols, [(P(0), m.rows, P(0), m.cols, "pure" if m.pure and m.cov else "cov" if m.cov else "rand" if m.cov is False and m.pure is False else "unk")])

    def value(self, v, rows, cols):
        """Mat or plain value to be painted on a rows x cols rectangle"""
        if T.is_const(v):
            c = T.cval(v)
            return "1" if c in (True, 1) else "0" if c in (False, 0) else "unk"
        m = self.mat(v)
        if isinstance(m, Mat) and self.eq(m.rows, rows) and self.eq(m.cols, cols):
            return m
        if isinstance(m, Sum) and self.eq(m.rows, rows) and self.eq(m.cols, cols):
            return self.as_mat(m).layers[0][4]
        if m is None and self.random(v):
            return "rand"
        return "unk"

    def store(self, m, idx, v):
        if m is None:
            return None
        reg = None
        if isinstance(m, Sum):
            return None
        if idx.op == "diagidx" or idx.op == "tuple" and len(idx.args) == 2 and idx.args[0].op == "arange" and idx.args[0] is idx.args[1]:
            return self.diagonal(m, idx, v)
        reg = self.region(idx, m)
        if reg is None:
            return Mat(m.rows, m.cols, m.layers + [(P(0), m.rows, P(0), m.cols, "unk")])
        r0, r1, c0, c1 = reg
        w = self.value(v, r1 - r0, c1 - c0)
        if isinstance(w, Mat):
            return Mat(m.rows, m.cols, m.layers + [(a + r0, b + r0, c + c0, d + c0, x) for a, b, c, d, x in w.layers])
        return Mat(m.rows, m.cols, m.layers + [(r0, r1, c0, c1, w)])

    def diagonal(self, m, idx, v):
        """ones on the main diagonal of a zero matrix: identity in the leading block"""
        if not (T.is_const(v) and T.cval(v) in (True, 1)) or any(x[4] != "0" for x in m.layers):
            return Mat(m.rows, m.cols, m.layers + [(P(0), m.rows, P(0), m.cols, "unk")])
        n = m.rows
        if idx.op == "tuple" and self.poly(idx.args[0].args[0]) != n:
            return Mat(m.rows, m.cols, m.layers + [(P(0), m.rows, P(0), m.cols, "unk")])
        return Mat(m.rows, m.cols, m.layers + [(P(0), n, P(0), n, "I")])

    def crop(self, m, idx):
        if m is not None and idx.op == "tuple" and len(idx.args) == 2:      # X[:, order] with a random order
            i, j = idx.args
            order = [z for z in (i, j) if z.op == "draw" and isinstance(z.data, tuple) and z.data[0] == "permutation"]
            rest = [z for z in (i, j) if z.op == "slice" and all(T.is_const(q) and T.cval(q) is None for q in z.args)]
            if len(order) == 1 and len(rest) == 1:
                n = order[0].args[1] if len(order[0].args) > 1 else None
                if n is not None and n.op in ("arange", "range") and len(n.args) == 1:
                    n = n.args[0]
                want = m.cols if order[0] is j else m.rows
                return self.facts(m) if n is not None and self.poly(n) is not None and self.eq(self.poly(n), want) else None
        if not isinstance(m, Mat):
            return None
        reg = self.region(idx, m)
        if reg is None:
            return None
        r0, r1, c0, c1 = reg
        out = []
        for a, b, c, d, v in m.layers:
            x = self.cut(a, b, r0, r1)
            y = self.cut(c, d, c0, c1)
            if x is None or y is None:
                return None
            if x == () or y == ():
                continue
            whole = self.le(r0, a) and self.le(b, r1) and self.le(c0, c) and self.le(d, c1)
            if v in ("I", "pure") and not whole:
                v = "cov" if v == "I" and self.le(r0, a) and self.le(b, r1) else "unk"
            if v == "cov" and not (self.le(r0, a) and self.le(b, r1)):
                v = "unk"
            out.append((x[0] - r0, x[1] - r0, y[0] - c0, y[1] - c0, v))
        return Mat(r1 - r0, c1 - c0, out)

    def cut(self, a, b, lo, hi):
        """intersection of [a, b) and [lo, hi); () when empty, None when the order is unknown"""
        if self.le(b, lo) or self.le(hi, a):
            return ()
        l = lo if self.le(a, lo) else a if self.le(lo, a) else None
        h = hi if self.le(hi, b) else b if self.le(b, hi) else None
        return None if l is None or h is None else (l, h)

    def draw(self, t):
        how = t.data[0] if isinstance(t.data, tuple) else None
        kw = dict(t.kw)
        args = t.args[1:]
        if how not in ("permutation", "permuted") or not args:
            s = self.sh.shape(t)
            return self.whole(t, "rand") if s is not None and len(s) == 2 else None
        m = self.mat(args[0])
        if m is None:
            return None
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        n = num(ax) if ax is not None else None
        if how == "permutation":
            if ax is not None and n not in (0, 1, -1):
                return None
            return self.facts(m)
        f = self.facts(m)
        if f is None:
            return None
        if n == 0:                      # within each column
            return Sum(f.rows, f.cols, False, f.cov)
        return Sum(f.rows, f.cols, False, False)      # entries move across columns

    # ---- global facts
    def facts(self, m):
        if isinstance(m, Sum):
            return m
        pts = [P(0), m.cols]
        for _, _, c, d, _ in m.layers:
            for p in (c, d):
                if not any(self.eq(p, q) for q in pts):
                    pts.append(p)
        for p in pts:
            for q in pts:
                if self.le(p, q) is None and self.le(q, p) is None:
                    return None
        srt = []
        for p in pts:
            i = 0
            while i < len(srt) and self.le(srt[i], p):
                i += 1
            srt.insert(i, p)
        cov, pure = True, False
        for p, q in zip(srt, srt[1:]):
            k = self.segment(m, p, q)
            if k == "unk":
                cov = None if cov is not False else cov
                pure = pure or None
            elif k == "pure":
                pure = True
            elif k == "cov":
                pass
            else:
                cov = False
        return Sum(m.rows, m.cols, pure, cov)

    def segment(self, m, p, q):
        ls = [l for l in m.layers if self.le(l[2], p) and self.le(q, l[3])]
        top = []                        # visible layers, topmost first, until the column is fully painted
        for l in reversed(ls):
            if self.le(l[1], l[0]):
                continue                # no rows
            if any(self.le(u[0], l[0]) and self.le(l[1], u[1]) for u in top):
                continue                # completely hidden
            top.append(l)
        if not top:
            return "none"
        vals = []
        for i, l in enumerate(top):
            full = not any(self.cut(u[0], u[1], l[0], l[1]) != () for u in top[:i])
            vals.append((l[4], full, bool(self.le(l[0], P(0)) and self.le(m.rows, l[1]))))
        v, _, allrows = vals[0]
        if allrows:
            if v in ("I", "pure"):
                return "pure" if v == "pure" or self.eq(q - p, m.rows) else "cov"
            return {"1": "cov", "cov": "cov", "0": "none", "rand": "none"}.get(v, "unk")
        if any(v in ("1", "cov") and full for v, full, _ in vals):
            return "cov"
        if any(v == "unk" for v, _, _ in vals):
            return "unk"
        if any(v == "1" for v, full, _ in vals) or any(v in ("I", "pure", "cov") for v, full, _ in vals):
            return "unk" if not all(w in ("0", "rand") for w, _, _ in vals[:1]) else "part"
        return "none"
