"""Try out planted bugs (development aid; no check uses it).

python3 tools/plant.py test ID...    build a scratch copy of /repo with the bug, run the demo with and without, run the stable tests
python3 tools/plant.py demo ID...    only the demos
python3 tools/plant.py check ID...   apply the bug to /repo, run the check of its property, undo
"""

import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def env_for(root):
    e = dict(os.environ)
    e.update(
        PATH="/opt/venv/bin:" + e["PATH"], PYTHONPATH=root + "/lib", MPLBACKEND="Agg", PYTHONHASHSEED="0", QT_API="pyqt6",
        PYTEST_QT_API="pyqt6", QT_QPA_PLATFORM="offscreen", SIM="ghdl", PYTHONDONTWRITEBYTECODE="1",
    )
    return e


def demo(bug, root):
    return sh(f"bash {SEEDED}/{bug}/demo.sh", cwd=root, env={k: v for k, v in os.environ.items() if k != "PYTHONPATH"})


def scratch(bug):
    root = f"/tmp/plant-{bug}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    sh(f"git -C /repo archive HEAD | tar x -C {root}; cp /repo/lib/b_asic/_b_asic.py /repo/lib/b_asic/_version.py {root}/lib/b_asic/")
    return root


def test(bug, full=True):
    r = demo(bug, "/repo")
    if r.returncode != 0:
        print(bug, "DEMO FAILS ON CLEAN TREE", r.stdout[-800:], r.stderr[-1500:])
        return
    root = scratch(bug)
    try:
        r = sh(f"git apply --unsafe-paths --directory={root} {SEEDED}/{bug}/patch.diff", cwd="/")
        if r.returncode != 0:
            r = sh(f"patch -p1 < {SEEDED}/{bug}/patch.diff", cwd=root)
        if r.returncode != 0:
            print(bug, "PATCH FAILS", r.stdout, r.stderr)
            return
        r = demo(bug, root)
        print(bug, "demo with bug: exit", r.returncode, (r.stdout + r.stderr).strip()[-300:])
        if r.returncode == 0 or not full:
            return
        out = f"/tmp/plant-{bug}.xml"
        sh(
            f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n {os.environ.get('PLANT_N', '8')} --no-xvfb --timeout=300 "
            f"--continue-on-collection-errors -o junit_family=xunit2 --junitxml={out} test",
            cwd=root, env=env_for(root),
        )
        js = f"/tmp/plant-{bug}.json"
        sh(f"python3 /opt/vp/results.py {js} junit:{out}")
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(json.load(open(js)).get("passed", []))
        missing = [t for t in base if t not in passed]
        print(bug, "missing stable tests:", len(missing), missing[:4], flush=True)
        os.unlink(out)
        os.unlink(js)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check(bug):
    prop = json.load(open(f"{SEEDED}/{bug}/meta.json"))["property"]
    root = scratch(bug)
    try:
        r = sh(f"patch -p1 < {SEEDED}/{bug}/patch.diff", cwd=root)
        if r.returncode != 0:
            print(bug, "PATCH FAILS", r.stdout, r.stderr)
            return
        e = dict(os.environ, VERIF_REPO=root, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        r = sh(f"/opt/venv/bin/python run.py {prop}", cwd=HERE, env=e)
        print(bug, prop, "exit", r.returncode, r.stdout.strip()[-400:], r.stderr.strip()[-300:], flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    for b in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        {"test": test, "demo": lambda x: test(x, False), "check": check}[sys.argv[1]](b)
