"""Make and confirm seeded changes (never used by a check).

plant.py make FILE.py...   FILE defines ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS
plant.py run ID...         apply the change to /repo, run the property's check (and others given by --also), undo
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
SH = """#!/bin/bash
export MPLBACKEND=Agg JAX_PLATFORMS=cpu
PYTHONPATH="$PWD/src" exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def undo():
    sh("git -C /repo checkout -- .")


def make(f):
    ns = {}
    exec(Path(f).read_text(), ns)
    d = V / "seeded" / ns["ID"]
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    (d / "demo.py").write_text(ns["DEMO"].lstrip())
    (d / "demo.sh").write_text(SH)
    (d / "demo.sh").chmod(0o755)
    (d / "meta.json").write_text(json.dumps({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    try:
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty repo"
        r0 = sh(f"bash {d}/demo.sh", cwd=REPO)
        for name, old, new in ns["EDITS"]:
            p = REPO / "src/chainconsumer" / name
            s = p.read_text()
            assert s.count(old) == 1, (name, s.count(old), old)
            p.write_text(s.replace(old, new))
        (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        r1 = sh(f"bash {d}/demo.sh", cwd=REPO)
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = t.stdout.strip().splitlines()[-1:] or [t.stderr[-200:]]
        ok = r0.returncode == 0 and r1.returncode not in (0, None) and " 0 failed" in res[0]
        print(ns["ID"], "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, res[0], "" if ok else (r0.stderr[-300:] + r1.stderr[-200:]), flush=True)
        # lines of mine?
        for n, old, _ in ns["EDITS"]:
            orig = sh(f"git -C /repo show 5e6a4aa:src/chainconsumer/{n}").stdout
            for ln in old.splitlines():
                if ln.strip() and ln not in orig:
                    print("   not original:", ln.strip()[:100])
        if not ok:
            shutil.rmtree(d)
    finally:
        undo()


def run(ids, also):
    for i in ids:
        d = V / "seeded" / i
        prop = json.loads((d / "meta.json").read_text())["property"]
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode:
            print(i, "does not apply", r.stderr[:200])
            continue
        try:
            for p in [prop, *also]:
                r = sh(f"./check {p}", cwd=V)
                v = [ln for ln in r.stdout.splitlines() if ln.startswith("VIOLATION")]
                print(i, p, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", [x.split("clause=")[-1] for x in v[:4]], r.stderr[-200:] if r.returncode not in (0, 1) else "", flush=True)
        finally:
            undo()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            make(f)
    else:
        a = sys.argv[2:]
        also = []
        if "--also" in a:
            k = a.index("--also")
            a, also = a[:k], a[k + 1:]
        run(a or sorted(p.name for p in (V / "seeded").iterdir()), also)
