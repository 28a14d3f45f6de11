"""Term queries shared by several checks."""
from sa import terms as T
from sa.terms import mk, const, cval, is_c, isnum


def subterms(t, into_mu=True, stop=()):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        yield x
        if x in stop:
            continue
        todo.extend(T.children(x))
        if into_mu and x.op == "mu":
            m = T.MU[x.data]
            todo.append(m["init"])
            todo.append(m["next"])


def contains(t, what, stop=()):
    if callable(what) and not isinstance(what, T.Term):
        return any(what(x) for x in subterms(t, True, stop))
    return any(x is what for x in subterms(t, True, stop))


def ops(t):
    return {x.op for x in subterms(t)}


def unwrap(t):
    """strip representation-only wrappers of a 0/1 graph"""
    while True:
        if t.op in ("astype",) and len(t.args) == 2 and t.args[1].op == "const" and \
                cval(t.args[1]) in ("bool", "int", "float", "bool_", "int64", "float64", "float32"):
            t = t.args[0]
        elif t.op in ("copy", "asarray", "array") and len(t.args) == 1 and t.args[0].op not in ("list", "tuple"):
            t = t.args[0]
        elif t.op == "ne" and len(t.args) == 2 and any(is_c(a, 0) for a in t.args):
            t = [a for a in t.args if not is_c(a, 0)][0]
        elif t.op == "lt" and len(t.args) == 2 and is_c(t.args[0], 0):
            t = t.args[1]
        else:
            return t


def opaque_in(t):
    """ops through which we cannot see"""
    return [x for x in subterms(t) if x.op in ("opaque", "rec", "unset") or x.op.startswith("call:") or
            x.op == "mcall"]


def map_term(t, f, memo=None):
    """rebuild t bottom-up: f(x) may return a replacement (checked first) or None"""
    memo = {} if memo is None else memo

    def go(x):
        if x in memo:
            return memo[x]
        r = f(x)
        if r is not None:
            memo[x] = r
            return r
        if not x.args and not x.kw:
            memo[x] = x
            return x
        a = [go(y) for y in x.args]
        k = [(n, go(v)) for n, v in x.kw]
        r = x if all(p is q for p, q in zip(a, x.args)) and all(p[1] is q[1] for p, q in zip(k, x.kw)) \
            else mk(x.op, a, k, x.data)
        memo[x] = r
        return r
    return go(t)


def phi_leaves(t):
    """alternatives of a value that depends on conditions: [(conds, term)]"""
    out = []

    def go(x, conds):
        if x.op == "phi" and len(x.args) == 3:
            go(x.args[1], conds + ((x.args[0], True),))
            go(x.args[2], conds + ((x.args[0], False),))
        else:
            out.append((conds, x))
    go(t, ())
    return out
