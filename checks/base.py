"""Common ground of all checks: obligations, scenarios, reporting."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from sa import terms as T                                      # noqa: E402
from sa.interp import Engine                                   # noqa: E402
from sa.values import *                                        # noqa: E402,F401,F403
from sa.values import Ev, Node, walk_events                    # noqa: E402


class Ob:
    __slots__ = ("status", "rule", "key", "loc", "msg")

    def __init__(self, status, rule, key, loc, msg):
        self.status, self.rule, self.key, self.loc, self.msg = status, rule, key, loc, msg


class Run:
    """outcome of one abstract scenario"""

    def __init__(self, name, result, events, st, eng):
        self.name, self.result, self.tree, self.st, self.eng = name, result, events, st, eng
        self.events = list(walk_events(events))

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def term(self, v=None):
        v = self.result if v is None else v
        if v is None:
            return None
        save, self.eng.st = self.eng.st, self.st
        try:
            return self.eng.term(v, self.st)
        finally:
            self.eng.st = save

    def field(self, obj, *names):
        """value of obj.a.b in the final state, or None"""
        v = obj
        for n in names:
            while isinstance(v, PhiV):
                a, b = v.a, v.b
                v = b if isinstance(a, UnsetV) else a
            if not isinstance(v, ObjV) or self.st is None:
                return None
            v = self.st.heap[v.cid].fields.get(n)
            if v is None:
                return None
        return v

    def fterm(self, obj, *names):
        v = self.field(obj, *names)
        return None if v is None else self.term(v)


class Dead(Exception):
    """no normal execution reaches the next step of the scenario"""


class Cx:
    def __init__(self, pid, root, tier, overlay=None):
        self.pid, self.tier, self.root = pid, tier, root
        self.obs = []
        self.scenarios = []
        self.engfail = []
        self.eng = Engine(root, overlay=overlay)
        self.eng.load_all()
        self.modcid = self.eng._cid                              # objects created at import time
        self.nterms = 0

    # obligations -----------------------------------------------------------
    def ok(self, rule, key, loc=None, msg=""):
        self.obs.append(Ob("ok", rule, key, loc, msg))

    def bad(self, rule, key, loc=None, msg=""):
        self.obs.append(Ob("violated", rule, key, loc, msg))

    def und(self, rule, key, loc=None, msg=""):
        self.obs.append(Ob("undecided", rule, key, loc, msg))

    def put(self, verdict, rule, key, loc=None, msg=""):
        (self.ok if verdict is True else self.bad if verdict is False else self.und)(rule, key, loc, msg)

    # scenarios -------------------------------------------------------------
    def lookup(self, q):
        return self.eng.lookup(q)

    def has(self, q):
        """is the public anchor q still there?  A vanished anchor is reported, not alarmed."""
        v = self.eng.lookup(q)
        if v is None:
            self.und("anchor", q, None, f"{q} no longer exists")
        return v is not None

    def run(self, name, fn):
        e = self.eng

        def body(_):
            try:
                return fn(_)
            except Dead:
                return None
        try:
            r, evs, st = e.run(body)
        except RecursionError:
            self.engfail.append((name, "recursion limit"))
            return None
        except Exception as x:                                   # engine limitation, never an alarm
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.engfail.append((name, f"{type(x).__name__}: {x} at {os.path.basename(tb.filename)}:{tb.lineno}"))
            return None
        self.scenarios.append(name)
        return Run(name, r, evs, st, e)

    def p(self, name, kind=None, nd=None, lo=None, hi=None, nonempty=False):
        """fresh symbolic argument"""
        inf = float("inf")
        if self.eng.st is None:
            raise Dead()
        v = self.eng.param(name, kind)
        t = self.eng.term(v)
        if nd is None and kind in ("float", "int", "bool"):
            nd = 0
        if nd is not None:
            self.eng.lib.ndims[t] = nd
        if lo is not None or hi is not None:
            self.eng.intervals[t] = (-inf if lo is None else lo, inf if hi is None else hi)
        if nonempty:
            lib = self.eng.lib
            self.eng.intervals[lib.size(t)] = (1, inf)
            for i in range(nd or 2):
                self.eng.intervals[lib.dim(t, i)] = (1, inf)
        return v

    def call(self, q, *args, **kw):
        if self.eng.st is None:
            raise Dead
        f = self.eng.lookup(q) if isinstance(q, str) else q
        return self.eng.callv(f, list(args), kw)

    def meth(self, obj, name, *args, **kw):
        if self.eng.st is None or obj is None:
            raise Dead
        return self.eng.callv(self.eng.getattr(obj, name), list(args), kw)


def rel(loc, root):
    if not loc:
        return None
    f, l, q = loc[0], loc[1], loc[2]
    if f.startswith(root):
        f = f[len(root):].lstrip("/")
    return f"{f}:{l} ({q})"


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                body = line.split(" ", 2)[2]
                key, _, what = body.partition(" :: ")
                out[key.removeprefix("key=").strip()] = what
    return out


def run_check(mod, root, tier, overlay=None):
    cx = Cx(mod.ID, root, tier, overlay)
    try:
        mod.check(cx)
    except Exception as x:      # a construct the analysis cannot handle: no verdict, never an alarm
        cx.engfail.append(("check", f"{type(x).__name__}: {x}"))
        cx.und("analysis", "rest of the check", None, f"not analysed: {type(x).__name__}: {x}")
        traceback.print_exc()
    return cx


def main(mod, argv=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if argv and "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    root = os.environ.get("MEDIL_ROOT", "/repo")
    t0 = time.time()
    cx = run_check(mod, root, tier)
    known = known_findings(mod.ID)
    outdir = os.environ.get("SA_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(outdir, exist_ok=True)
    new, old = [], []
    seen = set()
    for o in cx.obs:
        if o.status == "violated":
            k = f"{o.rule}|{o.key}"
            if k in seen:
                continue
            seen.add(k)
            (old if k in known else new).append((k, o))
    for k, o in old:
        print(f"KNOWN-FINDING: property={mod.ID} {known[k]}")
    extra = {}
    if tier == "thorough" and hasattr(mod, "WITNESSES"):
        extra["witnesses"] = witnesses(mod, root)
    n = {s: sum(o.status == s for o in cx.obs) for s in ("ok", "violated", "undecided")}
    distinct = len({(o.rule, o.key) for o in cx.obs if o.status == "ok"})
    cov = {
        "explanation": mod.RULE,
        "files_analysed": sorted(m.path[len(root):].lstrip("/") for m in cx.eng.mods.values()),
        "scenarios": cx.scenarios[:60], "scenario_count": len(cx.scenarios),
        "function_bodies_interpreted": len(cx.eng.stats.get("inlined", ())),
        "obligations": len(cx.obs), "discharged": n["ok"], "distinct_discharged": distinct,
        "violated": len(new), "known_findings": len(old), "undecided": n["undecided"],
        "undecided_items": [f"{o.rule}: {o.key}: {o.msg}"[:200] for o in cx.obs if o.status == "undecided"][:25],
        "samples": [{"rule": o.rule, "what": o.key, "where": rel(o.loc, root), "verdict": o.status, "note": o.msg[:300]}
                    for o in _spread(cx.obs, 20)],
        "engine_limits": [f"{a}: {b}"[:200] for a, b in cx.engfail][:10],
        "unmodelled_library_calls": sorted(cx.eng.unmodelled)[:40],
    }
    cov.update(extra)
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMES", [])) + [
              "library functions behave as described in sa/libfuncs.py and sa/libmethods.py"],
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(outdir, mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        rp = os.path.join(outdir, f"{mod.ID}.violation.txt")
        with open(rp, "w") as f:
            for k, o in new:
                f.write(f"property {mod.ID}: {mod.TITLE}\nrule: {o.rule}\nconstruct: {o.key}\nwhere: {rel(o.loc, root)}\n"
                        f"{o.msg}\nre-run: cd /verif && python3 run.py {mod.ID}\n\n")
        for k, o in new:
            print(f"{rel(o.loc, root) or '-'}: [{o.rule}] {o.key}: {o.msg[:400]}")
        print(f"VIOLATION property={mod.ID} replay={rp}")
        return 1
    print(f"{mod.ID}: {n['ok']} obligations discharged, {n['undecided']} undecided, {len(old)} known findings, "
          f"{len(cx.scenarios)} scenarios, {time.time() - t0:.1f}s")
    if cx.engfail:
        print("engine limits:", *[f"{a}: {b}" for a, b in cx.engfail][:5], sep="\n  ")
    return 0


def _spread(obs, k):
    if len(obs) <= k:
        return obs
    step = len(obs) / k
    return [obs[int(i * step)] for i in range(k)]


def witnesses(mod, root):
    """anti-vacuity: edits of the source held in memory that break the property; the rules must fire"""
    out = []
    for path, old, new in mod.WITNESSES:
        try:
            src = open(os.path.join(root, path)).read()
        except OSError:
            out.append({"edit": f"{path}: {old[:60]}", "applied": False})
            continue
        name = path[:-3].replace("/", ".").removesuffix(".__init__")
        if old not in src:
            out.append({"edit": f"{path}: {old[:60]}", "applied": False})
            continue
        try:
            cx = run_check(mod, root, "quick", {name: src.replace(old, new)})
            hits = sorted({f"{o.rule}|{o.key}" for o in cx.obs if o.status == "violated"} - set(known_findings(mod.ID)))
            out.append({"edit": f"{path}: {old.strip()[:60]!r} -> {new.strip()[:60]!r}", "applied": True, "fires": bool(hits),
                        "rule": hits[:2]})
        except Exception as x:
            out.append({"edit": f"{path}: {old[:60]}", "applied": True, "fires": False, "rule": [repr(x)[:100]]})
    return out
