from .base import *
from .tools import *
from .api import Api

ID, TITLE = "C11", "Objects do not influence each other through default arguments"
RULE = ("Alias and effect analysis of definition-time objects: every public operation is interpreted with its defaults, default-argument objects, class attributes "
        "and module-level objects keep their identity through fields and aliases. Obligation per operation: no write, append, attribute "
        "assignment or generator draw reaches an object created when the module was loaded.")
ASSUMES = ["drawing from a generator advances it"]
WITNESSES = [
    ("medil/models.py", "rng=default_rng(0),\n    ) -> None:\n        self.biadj = biadj", "rng=default_rng(0),\n    ) -> None:\n        self.biadj = biadj\n        biadj.resize(1)"),
    ("medil/models.py", "    def __init__(self, parameterization: str) -> None:\n", "    def __init__(self, parameterization: str, seen=[]) -> None:\n        seen.append(parameterization)\n"),
]


def check(cx):
    api = Api(cx, defaults=True)
    lab = cx.eng.labels
    quiet = 0
    for name, r, owned in api.runs():
        hit = False
        for e in r.events:
            if e.kind in ("mutate", "draw"):
                os_ = e.d["origins"]
            elif e.kind == "setattr" and e.d.get("cid") is not None:
                os_ = (e.d["cid"],)
            elif e.kind == "global-write":
                cx.bad("shared-state-unchanged", f"module variable {e.d['mod']}.{e.d['name']}", e.loc, f"{name} rebinds a module variable")
                hit = True
                continue
            else:
                continue
            for o in os_:
                l = lab.get(o, "")
                if l.startswith("default:"):
                    what = l[len("default:"):]
                    hit = True
                    if e.kind == "draw":
                        cx.bad("default-object-unchanged", f"{what} advanced", e.loc,
                               f"{name} draws from the generator created once for default argument {what}; its state is shared by all callers")
                    else:
                        cx.bad("default-object-unchanged", f"{what} written", e.loc, f"{name} writes default argument {what} in {e.loc[2]}")
                elif o <= cx.modcid and not l.startswith("param:"):
                    hit = True
                    cx.bad("shared-state-unchanged", f"object created at import time, written in {e.loc[2]}", e.loc,
                           f"{name}: {e.kind} reaches an object shared by all calls")
        if not hit:
            quiet += 1
            cx.ok("default-object-unchanged", name)
    if not quiet:
        cx.und("default-object-unchanged", "all", None, "nothing analysed")
