#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE]   (run in /verif)"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_CHILD") != "1":
    import tempfile
    import shutil
    import subprocess
    d = tempfile.mkdtemp(prefix="verif_env_")
    e = dict(os.environ, VERIF_CHILD="1", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(d, "mpl"),
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", HOME=d, XDG_CACHE_HOME=d, XDG_CONFIG_HOME=d,
             VERIF_HOME=d, PYTHONWARNINGS="ignore", TZ="UTC")
    e.pop("PHOENIX_PATH", None)
    e.pop("PYTHONPATH", None)
    try:
        p = subprocess.run([PY, os.path.abspath(__file__)] + sys.argv[1:], env=e)
        rc = p.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 3)

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import argparse
import importlib
import json
import traceback

import lib
from registry import REGISTRY

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=None)
ap.add_argument("--seed", default=None)
ap.add_argument("--replay", default=None)
a = ap.parse_args()
rep = None
if a.replay:
    rep = json.load(open(a.replay))
ctx = lib.Ctx(a.prop, a.tier, a.seed, rep)
code = 2
try:
    for name in REGISTRY[a.prop]:
        importlib.import_module("subsys." + name).check(ctx)
    code = ctx.finish()
except lib.MachineryError as ex:
    print("CHECK ERROR %s: %s" % (a.prop, ex))
except Exception:
    print("CHECK ERROR %s" % a.prop)
    traceback.print_exc()
finally:
    ctx.close()
sys.stdout.flush()
os._exit(code)
