"""Verify planted bugs: python3 tools/plant.py [--checks C01,C02|own|none] [--jobs N] [ID...]

Each bug of seeded/ is applied to a scratch copy of /repo; the stable tests must pass there, the
demonstration must fail there and pass on /repo; then the property's check is run against the copy."""
import argparse, json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET, glob
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ap = argparse.ArgumentParser()
ap.add_argument("--checks", default="own")
ap.add_argument("--jobs", type=int, default=3)
ap.add_argument("--notests", action="store_true")
ap.add_argument("ids", nargs="*")
A = ap.parse_args()
ids = A.ids or sorted(os.listdir(os.path.join(ROOT, "seeded")))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    e.update(env or {})
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timeout")


def tests(w):
    rep = tempfile.mkdtemp(prefix="rep", dir="/tmp")
    try:
        env = {"PYTHONPATH": w, "REP": rep, "PMIX_MCA_gds": "hash"}
        sh(f"{PY} -m pytest -q -p no:cacheprovider -n 4 --timeout=120 -o junit_family=xunit2 --junitxml={rep}/serial.xml tests --ignore=tests/mpi", w, env)
        sh("timeout -k 10 300 mpirun -n 6 --allow-run-as-root --oversubscribe --mca btl self,vader --mca btl_vader_single_copy_mechanism none "
           f"bash -c '{PY} -m pytest -q -p no:cacheprovider --timeout=60 --timeout-method=thread -o junit_family=xunit2 --junitxml=$REP/mpi.$OMPI_COMM_WORLD_RANK.xml tests/mpi > /dev/null 2>&1; exit 0'", w, env)
        ok, bad = set(), set()
        for f in glob.glob(rep + "/*.xml"):
            for c in ET.parse(f).getroot().iter("testcase"):
                if c.find("skipped") is not None:
                    continue
                n = "::".join(x for x in (c.get("classname"), c.get("name")) if x)
                (ok if c.find("failure") is None and c.find("error") is None else bad).add(n)
        return sorted(stable - (ok - bad))
    finally:
        shutil.rmtree(rep)


def one(i):
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    demo = tempfile.mkdtemp(prefix="demo", dir="/tmp")
    out = []
    try:
        sh(f"cp -a /repo/. {w}/ && git -C {w} apply {d}/patch.diff", "/")
        if sh(f"git -C {w} diff --quiet", "/").returncode == 0:
            return i, ["PATCH DOES NOT APPLY"]
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                src = os.path.join(d, f)
                (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(demo, f))
        a = sh(f"bash {demo}/demo.sh", "/repo", timeout=300)
        b = sh(f"bash {demo}/demo.sh", w, timeout=300)
        out.append("demo ok" if a.returncode == 0 and b.returncode else f"DEMO BAD clean={a.returncode} patched={b.returncode} {a.stdout[-300:] if a.returncode else ''}")
        out.append("   " + b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else "")
        if not A.notests:
            missing = tests(w)
            out.append("tests ok" if not missing else f"TESTS FAIL {len(missing)}: {missing[:2]}")
        checks = [] if A.checks == "none" else [meta["property"]] if A.checks == "own" else A.checks.split(",")
        for c in checks:
            r = sh(f"./check.sh {c}", ROOT, {"VERIF_REPO": w, "VERIF_EVIDENCE_DIR": w + "/ev"}, timeout=900)
            caught = r.returncode == 1 and f"VIOLATION property={c}" in r.stdout
            what = [l.strip() for l in r.stdout.splitlines() if l.strip().startswith("what:")]
            out.append(f"{c}: {'caught' if caught else 'MISSED rc=%d' % r.returncode}  {what[0][:140] if what else ''}")
    finally:
        shutil.rmtree(w)
        shutil.rmtree(demo)
    return i, out


with ThreadPoolExecutor(A.jobs) as ex:
    for i, out in ex.map(one, ids):
        print(i, "|", " | ".join(out), flush=True)
        if A.checks == "own":  # recorded for DESIGN.md
            path = os.path.join(ROOT, "tools", "caught.json")
            table = json.load(open(path)) if os.path.exists(path) else {}
            own = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]
            table[i] = f"{own} {'caught' if any(': caught' in o for o in out) else 'missed'}"
            json.dump(table, open(path, "w"), indent=0, sort_keys=True)
