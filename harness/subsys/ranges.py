"""C29: selections of targets by text, against Ranges.tla."""
import os
import shutil
import sys
import tempfile
import traceback

import exo
import numpy as np
from astropy import units as u
from astropy.table import QTable

exo.quiet()


def table(name):
    t = QTable()
    t["chName"] = ["A", "A", "B"]
    t["Wavelength"] = [1.0, 2.0, 3.5] * u.um
    t["Bandwidth"] = [1.0, 1.0, 2.0] * u.um
    t["LeftBinEdge"] = t["Wavelength"] - 0.5 * t["Bandwidth"]
    t["RightBinEdge"] = t["Wavelength"] + 0.5 * t["Bandwidth"]
    t["starSignal"] = [100.0, 80.0, 60.0] * u.count / u.s
    t["star_signal_inAperture"] = t["starSignal"]
    t["total_noise"] = [1e-4, 2e-4, 3e-4] * u.hr**0.5
    t.meta["name"] = name
    return t


def plot(case):
    from exorad.output.hdf5 import HDF5Output
    from exorad.utils import plotter
    d = tempfile.mkdtemp(prefix="rng", dir=os.environ.get("VERIF_HOME"))
    argv = sys.argv
    try:
        f, o = os.path.join(d, "t.h5"), os.path.join(d, "plots")
        names = sorted(case["names"])
        with HDF5Output(f) as out:
            g = out.create_group("targets")
            for n in names:
                g.create_group(n).create_group("table").write_table("table", table(n))
        text = "".join(case["t"])
        sys.argv = ["exorad-plot", "-i", f, "-o", o, "-n", text] + (["-t", case["by"]] if case["by"] else [])
        e = {"ev": "Plot", "text": case["t"], "by": case["by"], "names": names, "out": "ok"}
        try:
            with exo.hush():
                plotter.main()
        except (Exception, SystemExit) as ex:
            e["out"] = type(ex).__name__ if isinstance(ex, ValueError) else "%s: %s" % (type(ex).__name__, str(ex)[:200])
        e["plots"] = sorted(x[:-4] for x in os.listdir(o)) if os.path.isdir(o) else []
        return e
    finally:
        sys.argv = argv
        shutil.rmtree(d, ignore_errors=True)


def record(case):
    from exorad.utils.util import parse_range
    ev = [{"ev": "Reset"}]
    try:
        if case["kind"] == "plot":
            import matplotlib
            matplotlib.use("Agg")
            ev.append(plot(case))
            return ev
        for t in case["texts"]:
            e = {"ev": "Parse", "text": t, "n": case["n"], "out": "ok", "ids": []}
            try:
                with exo.hush():
                    r = parse_range("".join(t), case["n"])
                e["ids"] = [] if r is None else [int(x) for x in r]
            except Exception as ex:
                e["out"] = "%s: %s" % (type(ex).__name__, str(ex)[:200])
            ev.append(e)
    except Exception as ex:
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-1500:]})
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Parse":
            e["ids"] = e["ids"] + [77]
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("RangesMC", cfg="RangesMCThorough.cfg" if ctx.thorough else "RangesMC.cfg", expect_actions=["Read"])
    cases = ctx.pick("ranges", lambda: ctx.gen("RangesGen", cfg="RangesGenThorough.cfg" if ctx.thorough else "RangesGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=200)
    ctx.samples = [r[:6] for r in recs[-2:]]
    bad = ctx.validate("RangesTrace", recs, parallel=4, traces=sum(len(r) - 1 for r in recs))
    if not bad:
        ctx.selftest("RangesTrace", recs, corrupt)
    # one text each, to be replayed
    small = []
    for b in bad:
        c, e = cases[b["trace"]], recs[b["trace"]][b["line"]]
        small.append(dict(c, texts=[e["text"]]) if e["ev"] == "Parse" else c)
    ctx.report([dict(b, trace=i, line=0) for i, b in enumerate(bad)], small, [[recs[b["trace"]][b["line"]]] for b in bad], "ranges")
