import ast
from .base import *
from .tools import *
from . import neural
from sa.values import *

ID, TITLE = "C21", "Neural fitting writes its artefacts, and only inside the chosen directory"
RULE = ("Effect analysis of construct-then-fit with a symbolic directory: every file or directory creation's path expression must be the chosen directory joined "
        "with constant relative components; model, loss and error histories must be saved unconditionally, to distinct files, after the last update, from the very "
        "values the fitted object reports; one log write must be unconditional in the epoch loop, appending. Package-wide: every file-writing call site outside the "
        "neural estimator and the explicit graph export is a violation (call sites and their referencing functions enumerated from the syntax tree).")
ASSUMES = ["os.path.join / pathlib join relative components below the first one", "list of file-writing library calls in checks/c21.py is complete for the libraries used"]
WITNESSES = [
    ("medil/models.py", '        torch.save(model_recon, os.path.join(self.path, "model_recon.pt"))', '        if self.loss is None:\n            torch.save(model_recon, os.path.join(self.path, "model_recon.pt"))'),
    ("medil/models.py", 'os.path.join(self.path, "training.log")', 'self.path + "training.log"'),
    ("medil/models.py", 'os.path.join(self.path, "model_recon.pt")', '"model_recon.pt"'),
    ("medil/models.py", 'os.path.join(self.path, "error_recon.pkl")', 'os.path.join(self.path, "loss_recon.pkl")'),
    ("medil/models.py", '"loss_recon.pkl"), "wb")', '"loss_recon.pkl"), "ab")'),
    ("medil/models.py", "pickle.dump(error_recon, handle", "pickle.dump(loss_recon, handle"),
    ("medil/models.py", "        torch.save(model_recon, os", "        if self.verbose:\n            torch.save(model_recon, os"),
    ("medil/models.py", '"training.log"), "a")', '"training.log"), "w")'),
    ("medil/models.py", "    def log(self, entry: str) -> None:\n", "    def log(self, entry: str) -> None:\n        if not self.verbose:\n            return\n"),
    ("medil/models.py", '            "elbo_train": loss_recon[0],\n            "elbo_valid": loss_recon[1],', '            "elbo_train": loss_recon[1],\n            "elbo_valid": loss_recon[0],'),
    ("medil/models.py", "        self.parameters.vae = model_recon\n", "        self.parameters.vae = VariationalAutoencoder(2, 2, 1, 1)\n"),
    ("medil/evaluate.py", "def sfd(", 'np.save("cache.npy", np.zeros(1))\n\n\ndef sfd('),
    ("medil/models.py", 'os.path.join(self.path, "loss_recon.pkl")', 'os.path.join(self.path, "..", "loss_recon.pkl")'),
]
WRITERS = {"numpy.save", "numpy.savez", "numpy.savetxt", "numpy.savez_compressed", "torch.save", "os.makedirs", "os.mkdir", "os.remove", "os.unlink", "os.rename",
           "os.replace", "os.rmdir", "shutil.rmtree", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copytree", "tempfile.mkdtemp", "tempfile.mkstemp",
           "tempfile.NamedTemporaryFile", "joblib.dump", "joblib.Memory", "matplotlib.pyplot.savefig", "matplotlib.pyplot.imsave", "numpy.memmap", "logging.FileHandler",
           "networkx.write_gml", "networkx.write_graphml", "networkx.write_edgelist", "networkx.write_adjlist", "networkx.write_gpickle", "os.symlink", "os.link",
           "shelve.open", "sqlite3.connect", "torch.jit.save"}
METHODS = {"write_text", "write_bytes", "touch", "mkdir", "savefig", "to_csv", "to_pickle", "to_json", "to_excel", "to_hdf", "to_parquet", "tofile", "symlink_to", "unlink"}
N = neural.N


# ------------------------------------------------------------------ paths
def inside(t, P):
    """True: below directory P; False: not; None: cannot tell"""
    while t.op in ("path", "tostr", "file"):
        t = t.args[0]
    if t is P:
        return True
    if t.op == "pathjoin":
        a = inside(t.args[0], P)
        rest = [relative(x) for x in t.args[1:]]
        if a is True:
            return False if False in rest else None if None in rest else True
        if a is False:
            return False
        return None
    if t.op == "phi":
        vs = [inside(x, P) for x in t.args[1:]]
        return True if vs == [True, True] else None
    if t.op == "strcat" and t.args[0].op in ("tostr", "path"):
        return inside(mk("strcat", (t.args[0].args[0],) + t.args[1:]), P)
    if t.op == "strcat":
        if t.args[0] is P or t.args[0].op in ("path", "strip") and t.args[0].args[0] is P or t.args[0].op == "pathjoin" and inside(t.args[0], P):
            nxt = t.args[1] if len(t.args) > 1 else None
            if nxt is not None and T.is_const(nxt) and isinstance(T.cval(nxt), str):
                v = T.cval(nxt)
                if v[:1] == "/":
                    return False if ".." in v.split("/") else True
                return False if t.args[0] is P or t.args[0].op in ("path", "strip") else True
            if nxt is not None and nxt.op in ("lib", "attr") and str(nxt.data) in ("os.sep", "os.path.sep", "sep"):
                return True
            return None
        if any(x is P for x in T.subterms(t, True)):
            return None
        return None if opaque_in(t) else False
    if T.is_const(t):
        return False
    if t.op in ("strip",) and t.args[0] is P:
        return True
    if t.op in ("call:os.getcwd", "call:tempfile.gettempdir", "call:tempfile.mkdtemp", "call:os.path.dirname", "call:pathlib.Path.home") or \
            t.op == "attr" and t.data in ("parent", "root", "anchor"):
        return False
    return None


def relative(x):
    while x.op in ("tostr", "path"):
        x = x.args[0]
    if T.is_const(x):
        v = T.cval(x)
        return isinstance(v, str) and not v.startswith("/") and ".." not in v.split("/")
    if x.op == "strcat":
        if T.is_const(x.args[0]) and isinstance(T.cval(x.args[0]), str) and T.cval(x.args[0]).startswith("/"):
            return False
        return True
    return None


def base(t):
    while t.op in ("path", "tostr", "file"):
        t = t.args[0]
    return t


def plainpc(pc):
    """conditions on the path that are more than being inside a loop"""
    return [c for c in pc if not (c.op == "inloop" or c.op == "not" and c.args[0].op == "brk")]


def check(cx):
    for nf in neural.fits(cx, extra=lambda c, m, box: box.update(P=c.eng.term(c.eng.getattr(m, "path")))):
        scenario(cx, nf)
    sites(cx)


def scenario(cx, nf):
    r, key, m = nf.r, nf.key, nf.model
    P = next((x for x in T.subterms(nf.box["P"], True) if x.op in ("param", "sym") and x.data == "path"), nf.box["P"])
    for x in T.subterms(nf.box["P"], True):
        if str(x) == "path":
            P = x
    made = False
    for e in r.ev("open", "mkdir", "save", "fsop"):
        if e.kind == "open":
            mode = T.cval(e.d["mode"]) if T.is_const(e.d["mode"]) else "?"
            if not set(str(mode)) & set("wax+?"):
                continue
        if e.kind == "save" and e.d["path"].op == "file":
            continue
        ps = [e.d["path"]] + ([x for x in e.d["args"][1:] if not T.is_const(x) or isinstance(T.cval(x), str)] if e.kind == "fsop" else [])
        for p in ps:
            v = inside(p, P)
            cx.put(v, "inside-directory", f"{key}: {e.kind} {str(base(p))[:60]}", e.loc, "path is below the chosen directory" if v else "path is not the chosen directory joined with a relative name")
    # artefacts
    steps = [e.seq for e in r.ev("mcall") if e.d["name"] in ("step", "backward")]
    last = max(steps, default=0)
    saves = [e for e in r.ev("save")]
    vae = r.fterm(m, "parameters", "vae")
    loss = r.field(m, "loss")
    series = {}
    if isinstance(loss, DictV):
        for k, v in r.st.heap[loss.cid].entries.items():
            series[k.v if isinstance(k, ConstV) else T.cval(k) if isinstance(k, T.Term) else k] = r.term(v)
    unknown = [n for n in cx.eng.unmodelled if any(w in n for w in ("save", "dump", "write"))]
    wanted = []
    if vae is not None:
        wanted.append(("trained model", [vae]))
    else:
        cx.und("artefacts", f"{key}: model", None, "reported model not found")
    names = {"loss history": ("elbo_train", "elbo_valid"), "error history": ("recon_train", "recon_valid")}
    for label, ks in names.items():
        if all(k in series for k in ks):
            wanted.append((label, [series[k] for k in ks]))
        else:
            cx.und("artefacts", f"{key}: {label}", None, "reported series not found")
    where = {}
    for label, ts in wanted:
        hits = []
        for e in saves:
            w = e.d["what"]
            if len(ts) == 1:
                good = w is ts[0] or w.op in ("mcall", "modparams") and ts[0] in T.children(w)
            elif w.op in ("list", "tuple", "array", "stack", "vstack") and len(w.args) == 2:
                good = w.args[0] is ts[0] and w.args[1] is ts[1]
            elif w.op == "dict":
                good = all(x in T.subterms(w) for x in ts)
            else:
                good = None if all(x in T.subterms(w, True) for x in ts) else False
            if good is not False:
                hits.append((e, good))
        full = [(e, g) for e, g in hits if not plainpc(e.pc) and e.seq > last and not e.loops]
        if full:
            e, g = full[0]
            cx.put(True if g else None, "artefact-saved", f"{key}: {label}", e.loc, "saved unconditionally after training, the value the fitted object reports")
            where.setdefault(base(e.d["path"]), []).append((label, e))
        elif hits:
            e = hits[-1][0]
            why = "saved only under a condition" if plainpc(e.pc) else "saved before the last update" if e.seq < last else "saved inside a loop"
            cx.put(None if e.loops and not plainpc(e.pc) and e.seq > last else False, "artefact-saved", f"{key}: {label}", e.loc, why)
        else:
            op = any(opaque_in(e.d["what"]) for e in saves if e.d["what"].op != "obj")
            cx.put(None if unknown or op else False, "artefact-saved", f"{key}: {label}", None, "no save of the value that the fitted object reports")
    for p, ls in where.items():
        writers = [e for e in saves if base(e.d["path"]) is p] + [e for e in r.ev("open") if base(e.d["path"]) is p and e.seq > ls[0][1].seq]
        others = [e for e in writers if e.seq > ls[0][1].seq]
        if len(ls) > 1 or others:
            cx.bad("artefact-kept", f"{key}: {ls[0][0]}", (others[0] if others else ls[1][1]).loc, "the file is overwritten by another artefact")
        else:
            e = ls[0][1]
            f = e.d["path"]
            mode = T.cval(f.args[1]) if f.op == "file" and T.is_const(f.args[1]) else "w" if f.op != "file" else None
            cleared = any(o.kind == "fsop" or o is not e and base(o.d["path"]) is p for o in r.ev("fsop", "open") if o.seq < e.seq and (o.kind == "fsop" or "w" in str(o.d["mode"])))
            if mode is not None and "a" in str(mode) and not cleared:
                cx.bad("artefact-kept", f"{key}: {ls[0][0]}", e.loc, "appended to the file: what an earlier fit left there is read back instead")
            else:
                cx.put(None if mode is None or "+" in mode else True, "artefact-kept", f"{key}: {ls[0][0]}", e.loc, "written once, to a file that holds nothing else")
    # log
    tr = [e for e in nf.forwards if "train" in set().union(*[nf.split(a) for a in e.d["args"]])]
    if not tr or not tr[0].loops:
        cx.und("log-every-epoch", key, None, "epoch loop not identified")
        return
    ep = tr[0].loops[0]
    logs = [e for e in r.ev("write") if ep in e.loops]
    good = [e for e in logs if e.loops == (ep,) and not plainpc(e.pc) or e.loops[:1] == (ep,) and len(e.loops) == 1 and not plainpc(e.pc)]
    if good:
        for e in good:
            f = e.d["file"]
            mode = T.cval(f.args[1]) if f.op == "file" and T.is_const(f.args[1]) else None
            reopened = any(o.loops[:1] == (ep,) and base(o.d["path"]) is base(f) for o in r.ev("open"))
            if mode and "w" in mode and reopened:
                cx.bad("log-every-epoch", key, e.loc, "the log is truncated at every entry")
                return
        epochs = [e for e in good if any(x.op == "elem" and x.args[0].op == "range" for x in T.subterms(e.d["what"], True))]
        cx.put(True, "log-every-epoch", key, good[0].loc, f"{len(good)} unconditional log entries per epoch")
        tl = [e for e in epochs if e.seq < tr[0].seq] or epochs
        cx.put(True if tl else False, "log-names-epoch", key, (tl or good)[0].loc, "an entry names the epoch" if tl else "no entry per epoch names the epoch")
    else:
        lg = [n for n in cx.eng.unmodelled if "logging" in n]
        cx.put(None if lg else False, "log-every-epoch", key, logs[0].loc if logs else None, "log entries of an epoch are conditional" if logs else "no log entry is written in the epoch loop")


# ------------------------------------------------------------------ package-wide call sites
def sites(cx):
    funcs = {}          # qual -> (module, node, class)
    sinks = []
    refs = {}
    for name, mod in cx.eng.mods.items():
        src = getattr(mod, "tree", None)
        if src is None or not name.startswith("medil"):
            continue
        imp = imports(src, name)

        def walk(node, qual, cls, fn):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.ClassDef):
                    walk(ch, f"{qual}.{ch.name}", f"{qual}.{ch.name}", fn)
                elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{qual}.{ch.name}"
                    funcs.setdefault(q, (name, ch, cls))
                    walk(ch, q, cls, q if fn is None else fn)
                else:
                    if isinstance(ch, ast.Call):
                        w = writer(ch, imp)
                        if w:
                            sinks.append((name, fn, cls, ch, w, qual))
                    if isinstance(ch, ast.Name):
                        refs.setdefault(ch.id, set()).add((fn, name))
                    elif isinstance(ch, ast.Attribute):
                        refs.setdefault(ch.attr, set()).add((fn, name))
                    walk(ch, qual, cls, fn)
        walk(src, name, None, None)
    memo = {}

    def allowed(q, seen=()):
        if q is None:
            return False
        if q.startswith(N + "."):
            return True
        if q in memo:
            return memo[q]
        if q in seen:
            return True
        short = q.split(".")[-1]
        rs = {f for f, _ in refs.get(short, ()) if f != q}
        memo[q] = bool(rs) and all(allowed(f, seen + (q,)) for f in rs)
        return memo[q]
    n = 0
    for name, fn, cls, call, w, qual in sinks:
        n += 1
        loc = (cx.eng.relpath(name) if hasattr(cx.eng, "relpath") else name.replace(".", "/") + ".py", call.lineno, qual)
        if fn and allowed(fn):
            cx.ok("only-estimator-writes", f"{w} in {qual}", loc, "reached only from the neural estimator")
        elif fn and export(fn, funcs, call, refs):
            cx.ok("only-estimator-writes", f"{w} in {qual}", loc, "explicitly requested export to a caller-given name")
        else:
            cx.bad("only-estimator-writes", f"{w} in {qual}", loc, "writes a file outside the neural estimator and the explicit graph export")
    cx.ok("only-estimator-writes", "package scan", None, f"{n} file-writing call sites in {len(funcs)} functions")


def export(fn, funcs, call, refs):
    mod, node, cls = funcs[fn]
    params = {a.arg for a in node.args.args + node.args.kwonlyargs} - {"self", "cls"}
    if {f for f, _ in refs.get(node.name, ()) if f != fn}:
        return False
    first = call.args[0] if call.args else None
    tgt = call.func.value if isinstance(call.func, ast.Attribute) and call.func.attr in METHODS | {"open"} else first
    if tgt is None:
        return False
    used = {x.id for x in ast.walk(tgt) if isinstance(x, ast.Name)}
    # one step of local definitions
    for st in ast.walk(node):
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id in used for t in st.targets):
            used |= {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)}
    return bool(used & params)


def imports(tree, modname):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def writer(call, imp):
    f = call.func
    parts = []
    x = f
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if isinstance(x, ast.Name):
        q = ".".join([imp.get(x.id, x.id if not parts else "?" + x.id)] + parts[::-1])
    else:
        q = None
    if q in WRITERS:
        return q
    isopen = q in ("open", "io.open", "gzip.open", "bz2.open", "codecs.open", "builtins.open") or isinstance(f, ast.Attribute) and f.attr == "open" and (q is None or q.startswith("?"))
    if isopen:
        path = isinstance(f, ast.Attribute) and q not in ("io.open", "gzip.open", "bz2.open", "codecs.open")
        args = call.args if path else call.args[1:]
        mode = args[0] if args else next((k.value for k in call.keywords if k.arg == "mode"), None)
        if mode is None:
            return None
        if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
            return "open" if set(mode.value) & set("wax+") else None
        return "open"
    if isinstance(f, ast.Attribute) and f.attr in METHODS and (q is None or q.startswith("?") or q.split(".")[0] in ("pathlib",) or f.attr in ("savefig",)):
        return "." + f.attr
    return None
