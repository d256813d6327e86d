"""python3 tools/mkseed.py SPEC.py : plant the changes listed in SPEC.py in a scratch copy, confirm and keep them under seeded/.

SPEC.py defines SEEDS = {id: dict(prop=, edits=[(file, old, new), ...], needs=, breaks=, demo="python source")}.
A demo exits 0 on the unchanged tree and non-zero with the change.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw"
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import warnings; warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np, torch
# this torch build has no numpy bridge
torch.Tensor.numpy = lambda self, *a, **k: np.array(self.tolist(), dtype=str(self.dtype).split(".")[1])
_tensor = torch.tensor
def tensor(a, dtype=None, **k):
    if isinstance(a, (np.ndarray, np.generic)):
        a, dtype = a.tolist(), dtype or getattr(torch, str(a.dtype))
    return _tensor(a, dtype=dtype, **k)
torch.tensor = tensor
torch.from_numpy = lambda a: torch.tensor(a)
'''
SH = '''#!/bin/bash
# exit 0: the property holds on this scenario
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(os.environ, **(env or {})))


def tests():
    x = "/tmp/sw_junit.xml"
    if os.path.exists(x):
        os.remove(x)
    sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 "
       "--continue-on-collection-errors --ignore=testing/test_all.py -o junit_family=xunit2 --junitxml=" + x + " testing", SW,
       {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1"})
    ok = set()
    for t in ET.parse(x).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in t):
            ok.add(f"{t.get('classname')}::{t.get('name')}")
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    if not os.path.exists(SW):
        shutil.copytree("/repo", SW, symlinks=True)
    for sid, s in seeds.items():
        if only and sid not in only:
            continue
        sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd", SW)
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(SW, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = f"{f}: {t.count(old)} matches of {old!r}"
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(sid, "EDIT", bad)
            continue
        d = os.path.join(HERE, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", SW).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": " ".join(s["needs"].split()), "what_it_breaks": " ".join(s["breaks"].split())},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        demo = os.path.join(d, "demo.sh")
        a, b = sh(demo, "/repo"), sh(demo, SW)
        chk = sh(f"git apply --check {d}/patch.diff", "/repo")
        t = tests() if a.returncode == 0 and b.returncode else "skipped"
        good = a.returncode == 0 and b.returncode not in (0, 124) and chk.returncode == 0 and not t
        print(sid, "OK" if good else "BAD", "clean", a.returncode, "patched", b.returncode, b.stdout.strip()[-100:],
              b.stderr.strip()[-100:].replace("\n", " ") if b.returncode else "", "tests", sorted(t) if t else "pass",
              "" if a.returncode == 0 else a.stderr[-600:], flush=True)
        if not good:
            os.makedirs("/tmp/badseeds", exist_ok=True)
            shutil.rmtree(f"/tmp/badseeds/{sid}", ignore_errors=True)
            shutil.move(d, f"/tmp/badseeds/{sid}")


main()
