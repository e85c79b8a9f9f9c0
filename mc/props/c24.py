"""C24: a missing optional package disables exactly what needs it."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from mc import load
from mc.core import Violation

ID = "C24"
LEVEL = "exploration"
RULE = (
    "a case is one subset of the optional packages missing (hidden from the import system of an interpreter of its own, gt4py being "
    "the stand-in) and one sequence of uses of the package's features, in a process forked for it; the reference is the outcome of "
    "the feature alone with no package missing"
)
ASSUMPTIONS = [
    "the required packages of setup.py (numpy, cftime, fsspec, typing_extensions) are installed",
    "features: netCDF state and restart files need xarray and scipy, labelled arrays and datasets need xarray, Zarr output needs "
    "zarr and xarray, storages need gt4py (the stand-in of C23); everything else needs none of them",
]
OPTIONAL = ("xarray", "zarr", "scipy", "gt4py", "mpi4py")
CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "child24.py")
NEEDS = {
    "labelled": ("xarray",), "array": ("xarray",), "dataset": ("xarray",), "write": ("xarray", "scipy"), "read": ("xarray", "scipy"),
    "restart": ("xarray", "scipy"), "monitor": ("zarr", "xarray"), "storage": ("gt4py",), "backend": ("gt4py",),
}


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    for k in range(len(OPTIONAL) + 1):
        for missing in itertools.combinations(OPTIONAL, k):
            out.append({"missing": list(missing), "depth": 3 if deep else 2, "weight": len(missing) if missing else 9})
    return out


def write_files(d):
    """A state file and a restart directory, written without the package under test."""
    import xarray as xr

    t = xr.DataArray(np.int64(900), attrs={"units": "seconds since 2016-08-01 00:00:00", "calendar": "julian"})
    a = xr.DataArray(np.arange(6.0).reshape(2, 3), dims=["y", "x"], attrs={"units": "m"})
    with open(os.path.join(d, "state.nc"), "wb") as f:
        f.write(xr.Dataset({"a": a, "time": t}).to_netcdf())
    r = os.path.join(d, "restart")
    os.mkdir(r)
    for i in range(6):
        for name, var in (("fv_core.res", "T"), ("fv_srf_wnd.res", "u_srf"), ("fv_tracer.res", "sphum"), ("sfc_data", "tsea")):
            dims, shape = (["Time", "zaxis_1", "yaxis_1", "xaxis_1"], (1, 2, 3, 3)) if var in ("T", "sphum") else (
                ["Time", "yaxis_1", "xaxis_1"], (1, 3, 3))
            v = xr.DataArray(np.arange(float(np.prod(shape))).reshape(shape) + 100 * i, dims=dims, attrs={"units": "none"})
            with open(os.path.join(r, f"{name}.tile{i + 1}.nc"), "wb") as f:
                f.write(xr.Dataset({var: v}).to_netcdf())
    with open(os.path.join(r, "coupler.res"), "w") as f:
        f.write("     2        (Calendar)\n  2016 8 1 0 0 0  Model start\n  2016 8 1 0 15 0  Current model time\n")


def child(missing, scratch, depth):
    env = dict(os.environ, VERIF_MISSING=",".join(missing), VERIF_REPO=load.REPO, PYTHONHASHSEED="0")
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", CHILD, scratch, str(depth)], env=env, capture_output=True, text=True)
    lines = [json.loads(x) for x in r.stdout.splitlines() if x.startswith("{")]
    if r.returncode or not lines:
        raise RuntimeError(f"child ended with {r.returncode}: {r.stderr[-1500:]}")
    return lines


def run_job(job, rec):
    missing = job["missing"]
    d = tempfile.mkdtemp(prefix="verif-c24-", dir=os.environ.get("VERIF_TMP"))
    try:
        write_files(d)
        reference = {x["seq"][0]: x["out"][0] for x in child((), d, 1) if x["seq"]}
        lines = child(missing, d, job["depth"])
    finally:
        shutil.rmtree(d)

    def imported():
        for x in lines:
            if "import" in x:
                raise Violation(f"with {missing} missing, importing the package fails: {x['import']}")

    rec.case({"missing": missing, "what": "import"}, imported)
    for x in lines:
        if not x["seq"]:
            continue

        def go():
            if x["out"] is None:
                raise Violation(f"with {missing} missing, the interpreter died in {x['seq']}")
            for k, (name, out) in enumerate(zip(x["seq"], x["out"])):
                what = f"with {missing} missing, step {k} ({name}) of {x['seq']}"
                lacking = [n for n in NEEDS.get(name, ()) if n in missing]
                if not lacking:
                    if out != reference.get(name):
                        raise Violation(f"{what} gave {out}, with every package {reference.get(name)}")
                elif out[0] == "ok":
                    raise Violation(f"{what} gave a result, although it needs {lacking}")
                elif ("xarray" in lacking or "zarr" in lacking) and "ImportError" not in out[1]:
                    raise Violation(f"{what} raised {out[1][0]}: {out[2]}, expected an ImportError for {lacking}")

        rec.case({"missing": missing, "seq": x["seq"]}, go)
        rec.executions += 1
    rec.sample({"missing": missing, "sequences": len(lines)})
