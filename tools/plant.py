"""Author a planted bug: plant.py SPEC.py   (SPEC defines ID, PROP, EDITS=[(path, old, new)], NEEDS, BREAKS, DEMO)

Works in a scratch copy of /repo; the bug is written to /verif/seeded/<ID>/ only when the demonstration passes on the
unchanged tree, fails with the change, and the 19 stable tests still pass.
"""
import json
import os
import pathlib
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
SH = '#!/bin/bash\nset -u\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= ' \
     'OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nW=$(mktemp -d)\ntrap \'rm -rf "$W"\' EXIT\nexport SCRATCH="$W"\n/opt/venv/bin/python -B "$HERE/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def main(spec, tests=True):
    s = runpy.run_path(spec)
    out = pathlib.Path("/verif/seeded") / s["ID"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant_"))
    try:
        w = tmp / "repo"
        shutil.copytree("/repo", w, symlinks=True)
        d = tmp / "bug"
        d.mkdir()
        (d / "demo.sh").write_text(SH)
        (d / "demo.py").write_text(s["DEMO"].lstrip())
        r = sh(["bash", str(d / "demo.sh")], w, timeout=300)
        if r.returncode:
            print("demo fails on the unchanged tree:", r.stdout[-800:], r.stderr[-1200:])
            return 1
        for p, old, new in s["EDITS"]:
            t = (w / p).read_text()
            if t.count(old) != 1:
                print("edit does not match once:", t.count(old), old)
                return 1
            (w / p).write_text(t.replace(old, new))
        diff = sh(["git", "-c", "safe.directory=*", "diff"], w).stdout
        r = sh(["bash", str(d / "demo.sh")], w, timeout=300)
        if r.returncode == 0:
            print("demo does not fail with the change", r.stdout[-500:])
            return 1
        print("demo with the change:", (r.stdout + r.stderr).strip().splitlines()[-1][:200])
        if tests:
            r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "-p", "no:randomly", "--timeout=300",
                    "tests"], w)
            last = r.stdout.strip().splitlines()[-1]
            m = re.search(r"(\d+) passed", last)
            print("tests:", last)
            if "failed" in last or "error" in last or not m or int(m.group(1)) < 19:
                print("tests do not pass", r.stdout[-600:])
                return 1
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        shutil.copy(d / "demo.sh", out / "demo.sh")
        shutil.copy(d / "demo.py", out / "demo.py")
        (out / "meta.json").write_text(json.dumps({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        print("planted", out)
        return 0
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], "--notests" not in sys.argv))
