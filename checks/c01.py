from .base import *
from .api import Api

ID, TITLE = "C01", "Caller-owned arrays are never modified"
RULE = ("Effect and alias analysis. Every public operation is interpreted abstractly with caller-owned argument cells; "
        "views, may-aliases and stored references keep their origin. Obligation per operation and argument: no write event "
        "(item assignment, in-place operator, out=, mutating method, in-place library call) reaches a cell whose origins "
        "include the argument or a definition-time default array.")
ASSUMES = ["unmodelled library calls do not write into their arguments"]
WITNESSES = [
    ("medil/graph.py", "self.adj_matrix = np.array(adj_matrix)", "self.adj_matrix = adj_matrix"),
    ("medil/evaluate.py", "    biadj_mat = biadj_mat.astype(bool)\n    ug = biadj_mat.T @ biadj_mat\n", "    ug = biadj_mat\n"),
]


def check(cx):
    api = Api(cx)
    for name, r, owned in api.runs():
        touched = {}
        for e in r.ev("mutate"):
            for o in e.d["origins"]:
                if o in owned:
                    touched.setdefault(owned[o], e)
                lab = cx.eng.labels.get(o, "")
                if lab.startswith("default:") and "rng" not in lab:
                    touched.setdefault(lab, e)
        for a in sorted(set(owned.values())):
            if cx.eng.kinds.get(next(c for c in owned if owned[c] == a)) == "generator":
                continue
            if a in touched:
                e = touched[a]
                cx.bad("no-write-to-argument", f"{name}: argument {a} written in {e.loc[2]}", e.loc,
                       f"{e.d['how']} reaches the caller's {a}")
            else:
                cx.ok("no-write-to-argument", f"{name}: argument {a}")
        for a, e in touched.items():
            if a.startswith("default:"):
                cx.bad("no-write-to-default", f"{a} written in {e.loc[2]}", e.loc, f"{e.d['how']} reaches {a}")
    for m, evs in cx.eng.modev.items():
        for e in walk_events(evs):
            if e.kind == "mutate" and any(cx.eng.labels.get(o, "").startswith("default:") for o in e.d["origins"]):
                cx.bad("no-write-to-default", f"{m}", e.loc, "module level write to a default argument")
