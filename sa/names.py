"""Scope, attribute and signature resolution over the syntax trees of the package (no execution).

Everything here is three-valued: an issue is reported only when the construct can be resolved completely; dynamic
features (star imports from outside, exec, globals(), __getattr__, setattr with a computed name) make the
scope or class they touch "open", and nothing is reported about an open scope."""
import ast
import builtins

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__",
                                 "__builtins__", "__class__", "WindowsError"}
GUARD_NAME = {"NameError", "UnboundLocalError", "Exception", "BaseException"}
GUARD_ATTR = {"AttributeError", "Exception", "BaseException"}
GUARD_IMPORT = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}
GUARD_TYPE = {"TypeError", "Exception", "BaseException"}
OBJECT_ATTRS = set(dir(object)) | {"__dict__", "__module__", "__name__", "__qualname__", "__annotations__"}


class Scope:
    def __init__(self, kind, node, parent, qual):
        self.kind, self.node, self.parent, self.qual = kind, node, parent, qual
        self.names, self.glob, self.nonl = set(), set(), set()
        self.open = False


def targets(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


def scoped(n):
    return isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp))


def bindings(body, sc, resolve_star):
    """fill sc.names with what the statements bind in this scope"""
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            sc.names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            for d in getattr(n, "bases", []):
                walk(d)
            a = getattr(n, "args", None)
            if a is not None:
                for d in a.defaults + [x for x in a.kw_defaults if x]:
                    walk(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                walk(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):                   # only := escapes a comprehension
                if isinstance(w, ast.NamedExpr):
                    sc.names.add(w.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            sc.names.add(n.id)
        elif isinstance(n, ast.Global):
            sc.glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            sc.nonl.update(n.names)
        elif isinstance(n, ast.Import):
            for a in n.names:
                sc.names.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == "*":
                    got = resolve_star(n)
                    if got is None:
                        sc.open = True
                    else:
                        sc.names.update(got)
                else:
                    sc.names.add(a.asname or a.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            sc.names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            sc.names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            sc.names.add(n.rest)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("exec", "eval", "globals", "locals", "vars"):
            if n.func.id != "eval":
                sc.open = True
        for c in ast.iter_child_nodes(n):
            walk(c)
    for b in body:
        walk(b)
    sc.names -= sc.glob | sc.nonl


def dead(test):
    """constant-false test, or the type-checking marker"""
    if isinstance(test, ast.Constant):
        return not test.value
    return isinstance(test, ast.Name) and test.id == "TYPE_CHECKING" or isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING"


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.qual = mod, node, mod + "." + node.name
        self.bases, self.external, self.methods, self.attrs = [], False, {}, set()
        self.open = False
        self.selfattrs = set()


class Package:
    """mods: {module name: ast tree}"""

    def __init__(self, trees, package):
        self.trees, self.package = trees, package
        self.issues = []                # (rule, qual, name, line, module, message)
        self.counts = {"names": 0, "imports": 0, "self attributes": 0, "internal calls": 0, "module attributes": 0}
        self.top = {}
        self.future = {}
        self.pkgs = {m for m in trees if any(o.startswith(m + ".") for o in trees)}
        for m in trees:
            self.topscope(m, set())
        self.classes = {}
        self.collect_classes()
        self.stored = self.stored_attrs()
        for m, tree in trees.items():
            Visitor(self, m).module(tree)

    # module level ---------------------------------------------------------------------------------
    def topscope(self, m, busy):
        if m in self.top:
            return self.top[m]
        if m in busy:
            return None
        busy = busy | {m}
        tree = self.trees[m]
        sc = Scope("module", tree, None, m)

        def star(n):
            b = self.absname(m, n)
            if b in self.trees:
                s = self.topscope(b, busy)
                if s is None or s.open:
                    return None
                al = [x for x in self.trees[b].body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in x.targets)]
                if al:
                    try:
                        return set(ast.literal_eval(al[-1].value))
                    except ValueError:
                        return None
                return {x for x in s.names if not x.startswith("_")}
            return None
        bindings(tree.body, sc, star)
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for g in ast.walk(n):
                    if isinstance(g, ast.Global):
                        sc.names.update(g.names)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec"):
                sc.open = True
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                pass
        if "__getattr__" in sc.names:
            sc.open = True
        self.future[m] = any(isinstance(x, ast.ImportFrom) and x.module == "__future__" and any(a.name == "annotations" for a in x.names)
                             for x in tree.body)
        self.top[m] = sc
        return sc

    def absname(self, m, n):
        base = n.module or ""
        if n.level:
            pk = m.split(".")
            up = n.level - (1 if m in self.pkgs else 0)
            pk = pk[: len(pk) - up] if up else pk
            base = ".".join(pk + ([base] if base else []))
        return base

    def internal(self, name):
        return name.split(".")[0] == self.package

    # what a module-level name of a module denotes --------------------------------------------------
    def denotes(self, m, name, depth=0):
        """('def', module, node) | ('class', Cls) | ('mod', name) | None — only when bound exactly once"""
        if depth > 5 or m not in self.trees:
            return None
        hits = []
        for n in ast.walk(self.trees[m]):
            if isinstance(n, ast.Global) and name in n.names:
                return None

        def scan(body, cond):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if s.name == name:
                        hits.append(s)
                    continue
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        if (a.asname or (a.name.split(".")[0] if isinstance(s, ast.Import) else a.name)) == name:
                            hits.append((s, a))
                    continue
                sub = [getattr(s, f) for f in ("body", "orelse", "finalbody") if isinstance(getattr(s, f, None), list)]
                if sub:
                    for b in sub:
                        scan(b, True)
                    for h in getattr(s, "handlers", []):
                        scan(h.body, True)
                if name in set(targets(s)) and not sub:
                    hits.append(None)
        scan(self.trees[m].body, False)
        if len(hits) != 1 or hits[0] is None:
            return None
        h = hits[0]
        if isinstance(h, ast.ClassDef):
            c = self.classes.get(m + "." + h.name)
            return ("class", c) if c else None
        if isinstance(h, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return ("def", m, h)
        s, a = h
        if isinstance(s, ast.Import):
            if a.name in self.trees:
                return ("mod", a.name if a.asname else a.name.split(".")[0])
            return None
        b = self.absname(m, s)
        if b + "." + a.name in self.trees and a.name not in getattr(self.top.get(b), "names", ()):
            return ("mod", b + "." + a.name)
        if b in self.trees:
            return self.denotes(b, a.name, depth + 1)
        return None

    # classes ---------------------------------------------------------------------------------------
    def collect_classes(self):
        for m, tree in self.trees.items():
            for n in tree.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[m + "." + n.name] = Cls(m, n)
        for c in self.classes.values():
            for b in c.node.bases:
                r = None
                if isinstance(b, ast.Name):
                    if b.id == "object":
                        continue
                    r = self.denotes(c.mod, b.id)
                elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                    d = self.denotes(c.mod, b.value.id)
                    if d and d[0] == "mod":
                        r = self.denotes(d[1], b.attr)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                else:
                    c.external = True
            if c.node.keywords or c.node.decorator_list:
                c.open = True
            for s in c.node.body:
                self.classbody(c, s)

    def classbody(self, c, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            c.attrs.add(s.name)
            c.methods[s.name] = s
            if s.name in ("__getattr__", "__getattribute__", "__slots__"):
                c.open = True
            kinds = {d.id for d in s.decorator_list if isinstance(d, ast.Name)}
            if "staticmethod" in kinds or not (s.args.posonlyargs + s.args.args):
                return
            me = (s.args.posonlyargs + s.args.args)[0].arg
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, (ast.Store, ast.Del)):
                    c.selfattrs.add(n.attr)
                if isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Name) and f.id in ("setattr", "vars") or isinstance(f, ast.Attribute) and f.attr in ("__setattr__", "update") \
                            and any(isinstance(x, ast.Attribute) and x.attr == "__dict__" for x in ast.walk(f)):
                        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                            c.selfattrs.add(n.args[1].value)
                        else:
                            c.open = True
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    c.open = True
        elif isinstance(s, ast.ClassDef):
            c.attrs.add(s.name)
        else:
            c.attrs.update(targets(s))
            for n in ast.walk(s):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    c.attrs.update((a.asname or a.name.split(".")[0]) for a in n.names)
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    c.attrs.add(n.name)

    def stored_attrs(self):
        """attribute names stored on anything other than the method's own object, anywhere in the package"""
        out = set()
        for tree in self.trees.values():
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "setattr") and len(n.args) > 1 \
                        and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
        return out

    def family(self, c):
        """the class, its ancestors and descendants"""
        anc, todo = {c.qual}, [c]
        while todo:
            for b in todo.pop().bases:
                if b.qual not in anc:
                    anc.add(b.qual)
                    todo.append(b)
        fam = set(anc)
        grew = True
        while grew:
            grew = False
            for d in self.classes.values():
                if d.qual not in fam and any(b.qual in fam and (b.qual == c.qual or b.qual not in anc) for b in d.bases):
                    fam.add(d.qual)
                    grew = True
        more = set()
        for q in fam:                               # ancestors of the descendants
            todo = [self.classes[q]]
            while todo:
                for b in todo.pop().bases:
                    more.add(b.qual)
                    todo.append(b)
        return [self.classes[q] for q in fam | more], [self.classes[q] for q in anc]

    def mro(self, c):
        out = [c]
        for b in c.bases:
            out += [x for x in self.mro(b) if x not in out]
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
            if name in k.attrs or name in k.selfattrs:
                return None
        return None


def bindproblem(fn, call, bound):
    """why the call does not fit the signature of fn, or None (bound: the receiver is passed implicitly)"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        if not pos and not a.vararg:
            return "takes no receiver"
        pos = pos[1:]
    kwo = [x.arg for x in a.kwonlyargs]
    ponly = {x.arg for x in a.posonlyargs}
    if len(call.args) > len(pos) and not a.vararg:
        return f"{len(call.args)} positional arguments given, {len(pos)} accepted"
    given = set(pos[: len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return f"multiple values for '{k.arg}'"
        if (k.arg in pos and k.arg not in ponly) or k.arg in kwo:
            given.add(k.arg)
        elif not a.kwarg:
            return f"unexpected keyword '{k.arg}'"
    need = pos[: len(pos) - min(len(pos), len(a.defaults))] + [n for n, d in zip(kwo, a.kw_defaults) if d is None]
    miss = [n for n in need if n not in given]
    if miss:
        return "missing argument " + ", ".join(f"'{n}'" for n in miss)
    return None


class Visitor:
    def __init__(self, pk, mod):
        self.pk, self.mod = pk, mod
        self.guards = []                # sets of exception names handled around the current node
        self.cls = None
        self.me = None

    def issue(self, rule, sc, name, node, msg, guard):
        for g in self.guards:
            if g & guard:
                return
        q = sc
        while q.kind in ("comp",):
            q = q.parent
        self.pk.issues.append((rule, q.qual, name, getattr(node, "lineno", 0), self.mod, msg))

    # scopes ------------------------------------------------------------------------------------------
    def module(self, tree):
        self.block(tree.body, self.pk.top[self.mod])

    def lookup(self, sc, name):
        first = True
        s = sc
        while s is not None:
            if s.open:
                return True
            if s.kind == "module":
                return name in s.names or name in BUILTINS
            if s.kind == "class" and not first:
                s = s.parent
                continue
            if name in s.glob:
                top = self.pk.top[self.mod]
                return top.open or name in top.names or name in BUILTINS
            if name in s.names and name not in s.nonl:
                return True
            if s.kind != "comp":
                first = False
            s = s.parent
        return False

    def denoted(self, sc, name):
        """what a name used in scope sc denotes, when it is a module-level binding"""
        s = sc
        while s.kind != "module":
            if name in s.names and not (s.kind == "class" and s is not sc):
                return None
            s = s.parent
        return self.pk.denotes(self.mod, name)

    # statements --------------------------------------------------------------------------------------
    def block(self, body, sc):
        for s in body:
            self.node(s, sc)

    def handler_names(self, t):
        out = set()
        for h in t.handlers:
            if h.type is None:
                out |= {"BaseException", "Exception"}
            else:
                for n in ast.walk(h.type):
                    if isinstance(n, ast.Name):
                        out.add(n.id)
                    elif isinstance(n, ast.Attribute):
                        out.add(n.attr)
        return out

    def function(self, n, sc, qual):
        for d in getattr(n, "decorator_list", []):
            self.node(d, sc)
        a = n.args
        for d in a.defaults + [x for x in a.kw_defaults if x]:
            self.node(d, sc)
        allargs = a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]
        if not self.pk.future[self.mod]:
            for x in allargs:
                if x.annotation is not None:
                    self.node(x.annotation, sc)
            if getattr(n, "returns", None) is not None:
                self.node(n.returns, sc)
        f = Scope("function", n, sc, qual)
        f.names |= {x.arg for x in allargs}
        body = n.body if isinstance(n.body, list) else [n.body]
        bindings(body, f, lambda _: None)
        saved = self.guards, self.me, self.cls
        if sc.kind == "class":
            kinds = {d.id for d in getattr(n, "decorator_list", []) if isinstance(d, ast.Name)}
            pos = a.posonlyargs + a.args
            if isinstance(n, ast.Lambda) or "staticmethod" in kinds or "classmethod" in kinds or not pos:
                self.me = None
            else:
                self.me = pos[0].arg
                if any(isinstance(w, ast.Name) and w.id == self.me and isinstance(w.ctx, ast.Store) for w in ast.walk(n)):
                    self.me = None
        elif self.me in f.names:
            self.me = None
        self.guards = []
        self.block(body, f)
        self.guards, self.me, self.cls = saved

    def node(self, n, sc):
        k = type(n).__name__
        h = getattr(self, "v_" + k, None)
        if h:
            return h(n, sc)
        for c in ast.iter_child_nodes(n):
            self.node(c, sc)

    def v_FunctionDef(self, n, sc):
        self.function(n, sc, sc.qual + "." + n.name)

    v_AsyncFunctionDef = v_FunctionDef

    def v_Lambda(self, n, sc):
        self.function(n, sc, sc.qual)

    def v_ClassDef(self, n, sc):
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.node(d, sc)
        c = Scope("class", n, sc, sc.qual + "." + n.name)
        bindings(n.body, c, lambda _: None)
        c.open = False
        saved = self.cls, self.me
        self.cls = self.pk.classes.get(self.mod + "." + n.name) if sc.kind == "module" else None
        self.block(n.body, c)
        self.cls, self.me = saved

    def comp(self, n, sc):
        c = Scope("comp", n, sc, sc.qual)
        for i, g in enumerate(n.generators):
            self.node(g.iter, sc if i == 0 else c)
            c.names.update(targets(g.target))
            for x in ast.walk(g.target):
                if isinstance(x, (ast.Attribute, ast.Subscript)):
                    self.node(x, c)
            for x in g.ifs:
                self.node(x, c)
        for f in ("elt", "key", "value"):
            if getattr(n, f, None) is not None:
                self.node(getattr(n, f), c)

    v_ListComp = v_SetComp = v_DictComp = v_GeneratorExp = comp

    def v_Try(self, n, sc):
        self.guards.append(self.handler_names(n))
        self.block(n.body, sc)
        self.guards.pop()
        for h in n.handlers:
            if h.type is not None:
                self.node(h.type, sc)
            self.block(h.body, sc)
        self.block(n.orelse + n.finalbody, sc)

    v_TryStar = v_Try

    def v_With(self, n, sc):
        g = set()
        for i in n.items:
            self.node(i, sc)
            c = i.context_expr
            if isinstance(c, ast.Call) and getattr(c.func, "attr", getattr(c.func, "id", "")) == "suppress":
                g |= {w.id for a in c.args for w in ast.walk(a) if isinstance(w, ast.Name)}
        self.guards.append(g)
        self.block(n.body, sc)
        self.guards.pop()

    def v_If(self, n, sc):
        self.node(n.test, sc)
        if not dead(n.test):
            hid = self.hasattr_of(n.test)
            self.guards.append({"AttributeError"} if hid else set())
            self.block(n.body, sc)
            self.guards.pop()
        hid = self.hasattr_of(n.test)
        self.guards.append({"AttributeError"} if hid else set())
        self.block(n.orelse, sc)
        self.guards.pop()

    def v_IfExp(self, n, sc):
        self.node(n.test, sc)
        hid = self.hasattr_of(n.test)
        self.guards.append({"AttributeError"} if hid else set())
        self.node(n.body, sc)
        self.node(n.orelse, sc)
        self.guards.pop()

    def v_BoolOp(self, n, sc):
        hid = any(self.hasattr_of(v) for v in n.values)
        self.guards.append({"AttributeError"} if hid else set())
        for v in n.values:
            self.node(v, sc)
        self.guards.pop()

    def hasattr_of(self, t):
        return any(isinstance(w, ast.Call) and isinstance(w.func, ast.Name) and w.func.id in ("hasattr", "dir", "vars", "getattr")
                   or isinstance(w, ast.Attribute) and w.attr == "__dict__" for w in ast.walk(t))

    def v_AnnAssign(self, n, sc):
        self.node(n.target, sc)
        if n.value is not None:
            self.node(n.value, sc)
        if sc.kind != "function" and not self.pk.future[self.mod]:
            self.node(n.annotation, sc)

    def v_Name(self, n, sc):
        if not isinstance(n.ctx, ast.Load):
            return
        self.pk.counts["names"] += 1
        if not self.lookup(sc, n.id):
            self.issue("name", sc, n.id, n, f"name '{n.id}' is defined in no enclosing scope", GUARD_NAME)

    def v_Import(self, n, sc):
        for a in n.names:
            if self.pk.internal(a.name):
                self.pk.counts["imports"] += 1
                if a.name not in self.pk.trees:
                    self.issue("import", sc, a.name, n, f"there is no module '{a.name}'", GUARD_IMPORT)

    def v_ImportFrom(self, n, sc):
        b = self.pk.absname(self.mod, n)
        if not self.pk.internal(b):
            return
        for a in n.names:
            self.pk.counts["imports"] += 1
            if b not in self.pk.trees:
                self.issue("import", sc, b, n, f"there is no module '{b}'", GUARD_IMPORT)
            elif a.name != "*":
                t = self.pk.top[b]
                if not (t.open or a.name in t.names or b + "." + a.name in self.pk.trees):
                    self.issue("import", sc, f"{b}.{a.name}", n, f"module '{b}' defines no '{a.name}'", GUARD_IMPORT)

    def v_Attribute(self, n, sc):
        self.node(n.value, sc)
        if not isinstance(n.ctx, ast.Load) or not isinstance(n.value, ast.Name):
            return
        x = n.value.id
        if self.cls is not None and self.me is not None and x == self.me:
            fam, _ = self.pk.family(self.cls)
            if any(c.open or c.external for c in fam):
                return
            self.pk.counts["self attributes"] += 1
            known = OBJECT_ATTRS | self.pk.stored
            for c in fam:
                known = known | c.attrs | c.selfattrs
            if n.attr not in known:
                self.issue("attribute", sc, n.attr, n, f"nothing ever sets attribute '{n.attr}' of {self.cls.qual}", GUARD_ATTR)
            return
        d = self.denoted(sc, x)
        if d and d[0] == "mod":
            t = self.pk.top.get(d[1])
            if t is not None and not t.open:
                self.pk.counts["module attributes"] += 1
                if n.attr not in t.names and d[1] + "." + n.attr not in self.pk.trees and n.attr not in BUILTINS and n.attr not in self.pk.stored:
                    self.issue("attribute", sc, n.attr, n, f"module '{d[1]}' defines no '{n.attr}'", GUARD_ATTR)

    def v_Call(self, n, sc):
        for c in ast.iter_child_nodes(n):
            self.node(c, sc)
        f = n.func
        d = None
        if isinstance(f, ast.Name):
            d = self.denoted(sc, f.id)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if self.cls is not None and self.me is not None and f.value.id == self.me:
                fam, _ = self.pk.family(self.cls)
                if any(c.open for c in fam):
                    return
                probs = []
                own = self.pk.method(self.cls, f.attr)
                for c in fam:
                    m = c.methods.get(f.attr)
                    if m is None:
                        continue
                    if f.attr in c.selfattrs or any(f.attr in x.selfattrs for x in fam):
                        return
                    if m.decorator_list:
                        return
                    probs.append(bindproblem(m, n, True))
                if probs:
                    self.pk.counts["internal calls"] += 1
                if own is not None and probs and all(probs):
                    self.issue("call", sc, f.attr, n, f"call of {self.cls.qual}.{f.attr}: {probs[0]}", GUARD_TYPE)
                return
            d0 = self.denoted(sc, f.value.id)
            if d0 and d0[0] == "mod":
                d = self.pk.denotes(d0[1], f.attr)
        if d is None:
            return
        if d[0] == "def":
            if d[2].decorator_list:
                return
            self.pk.counts["internal calls"] += 1
            p = bindproblem(d[2], n, False)
            if p:
                self.issue("call", sc, d[2].name, n, f"call of {d[1]}.{d[2].name}: {p}", GUARD_TYPE)
        elif d[0] == "class":
            c = d[1]
            if c.open or c.external and self.pk.method(c, "__init__") is None or self.pk.method(c, "__new__") is not None:
                return
            m = self.pk.method(c, "__init__")
            self.pk.counts["internal calls"] += 1
            if m is None:
                p = "takes no arguments" if n.args or n.keywords else None
            else:
                p = None if m.decorator_list else bindproblem(m, n, True)
            if p:
                self.issue("call", sc, c.qual, n, f"construction of {c.qual}: {p}", GUARD_TYPE)
