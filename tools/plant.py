"""Development helper: make and confirm planted bugs (never used by a check).

  plant.py make   -> (re)write seeded/<id>/ from bugs.py for ids not there yet
  plant.py demo   -> demo on the unchanged tree and on a patched copy
  plant.py test   -> stable tests on a patched copy
  plant.py check  -> the property's check against a patched copy
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
DEMO = '#!/bin/bash\n. /opt/vp/env.sh\nexport JAX_ENABLE_X64=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def make(ids):
    sys.path.insert(0, os.path.join(HERE, "tools"))
    from bugs import BUGS

    for b in BUGS:
        d = os.path.join(SEED, b["id"])
        if ids and b["id"] not in ids:
            continue
        if not ids and os.path.exists(d):
            continue
        os.makedirs(d, exist_ok=True)
        tmp = f"/tmp/mk_{b['id']}"
        shutil.rmtree(tmp, ignore_errors=True)
        sh(f"git -C /repo worktree prune; git clone -q /repo {tmp}")
        for f, old, new in b["edits"]:
            p = os.path.join(tmp, "src/jaxoplanet", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {tmp} diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(tmp)
        print("made", b["id"])


def patched(i):
    tmp = f"/tmp/pl_{i}"
    shutil.rmtree(tmp, ignore_errors=True)
    sh(f"cp -a /repo {tmp}")
    r = sh(f"git -C {tmp} apply {SEED}/{i}/patch.diff")
    assert r.returncode == 0, (i, r.stderr)
    return tmp


def demo(i):
    a = sh(f"cd /repo && bash {SEED}/{i}/demo.sh")
    t = patched(i)
    b = sh(f"cd {t} && PYTHONPATH={t}/src bash {SEED}/{i}/demo.sh")
    shutil.rmtree(t)
    ok = a.returncode == 0 and b.returncode != 0
    print(i, "demo", "OK" if ok else f"BAD base={a.returncode} patched={b.returncode}\n{a.stderr[-1500:]}\n{b.stderr[-500:]}", flush=True)
    if ok:
        print("   ", b.stderr.strip().splitlines()[-1][:160] if b.stderr.strip() else "")


def test(i):
    t = patched(i)
    out = []
    res = {}
    for pre, x in (("float32", 0), ("x64", 1)):
        r = sh(f". /opt/vp/env.sh; cd {t} && PYTHONPATH={t}/src JAX_ENABLE_X64={x} timeout 600 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 8 "
               f"--timeout=300 -o junit_family=xunit2 --junit-prefix={pre} --junitxml=/tmp/pl_{i}_{pre}.xml")
    sh(f". /opt/vp/env.sh; /opt/venv/bin/python /opt/vp/results.py /tmp/pl_{i}.json 'junit:/tmp/pl_{i}_*.xml'")
    d = json.load(open(f"/tmp/pl_{i}.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ps = d.get("passed", d)
    miss = [s for s in stable if s not in ps]
    print(i, "tests", "OK" if not miss else f"FAIL {len(miss)} {miss[:3]}", flush=True)
    shutil.rmtree(t)
    for f in (f"/tmp/pl_{i}_float32.xml", f"/tmp/pl_{i}_x64.xml", f"/tmp/pl_{i}.json"):
        if os.path.exists(f):
            os.remove(f)


def check(i, tier="quick"):
    p = json.load(open(f"{SEED}/{i}/meta.json"))["property"]
    t = patched(i)
    r = sh(f"cd {HERE} && VERIF_REPO={t} ./check {p} --tier {tier}")
    shutil.rmtree(t)
    print(i, p, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout else f"MISSED rc={r.returncode}", flush=True)
    print("   ", (r.stdout.strip().splitlines() or [""])[0][:200])


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(ids)
    else:
        for i in ids or sorted(os.listdir(SEED)):
            if os.path.isdir(os.path.join(SEED, i)):
                globals()[cmd](i)
