"""Run the checks against every planted bug, in scratch copies: seedcheck.py [filter] [--all: every check, not only the bug's own]"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path("/verif")


def one(d, every):
    prop = json.loads((d / "meta.json").read_text())["property"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="seed_"))
    try:
        shutil.copytree("/repo/medil", tmp / "medil")
        p = subprocess.run(["git", "apply", "--include=medil/*", str(d / "patch.diff")], cwd=tmp, capture_output=True, text=True)
        if p.returncode:
            return d.name, prop, "PATCH FAILS " + p.stderr[:100]
        ids = [f"C{i:02}" for i in range(1, 60) if (ROOT / f"checks/c{i:02}.py").exists()] if every else [prop]
        out = []
        for i in ids:
            if not (ROOT / f"checks/{i.lower()}.py").exists():
                out.append(f"{i}: no check")
                continue
            r = subprocess.run([sys.executable, "run.py", i], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, MEDIL_ROOT=str(tmp), SA_EVIDENCE=str(tmp / "ev"), PYTHONDONTWRITEBYTECODE="1"))
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION") or x.startswith("  ")]
                out.append(f"{i}: CAUGHT " + " | ".join(x.strip()[:150] for x in lines[:3]))
            elif r.returncode:
                out.append(f"{i}: ERROR {r.returncode} {r.stderr[-200:]}")
            elif not every:
                und = [x for x in r.stdout.splitlines() if "undecided" in x.lower()]
                out.append(f"{i}: missed {' | '.join(und)[:200]}")
        return d.name, prop, "; ".join(out) or "missed by all"
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    flt = [a for a in sys.argv[1:] if not a.startswith("--")]
    ds = [d for d in sorted((ROOT / "seeded").iterdir()) if not flt or any(f in d.name for f in flt)]
    res = {}
    with ThreadPoolExecutor(7) as ex:
        for n, p, o in ex.map(lambda d: one(d, "--all" in sys.argv), ds):
            print(f"{n}: {o}", flush=True)
            res[n] = re.findall(r"(C\d\d): CAUGHT", o)
    if "--all" in sys.argv:   # for the table in DESIGN.md
        f = ROOT / "tools/seed_results.json"
        old = json.loads(f.read_text()) if f.exists() else {}
        old.update(res)
        f.write_text(json.dumps({k: v for k, v in sorted(old.items()) if (ROOT / "seeded" / k).exists()}, indent=1) + "\n")
