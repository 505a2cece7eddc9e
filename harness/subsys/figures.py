"""C33: tables, channels and runs of FigureGen drawn by the real code; lines and bands of the
figures are read back from the figures' artists and checked against Figure.tla."""
import json
import logging
import multiprocessing
import os
import shutil
import sys
import tempfile

import matplotlib
matplotlib.use("Agg")
import exo
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from astropy import units as u
from astropy.table import QTable

import lib
import payload as P

exo.quiet()
BORDERS = [1.0, 2.5, 4.0, 5.5, 8.0]
AT = [BORDERS[i] + f * (BORDERS[i + 1] - BORDERS[i]) for i in range(4) for f in (0.3, 0.5, 0.7)]
STAR = "star_signal_inAperture"


def plain(x):
    return np.asarray(getattr(x, "value", x), float).ravel()


def bands(ax):
    """vertical spans, edges in tenths of a micron"""
    out = []
    for p in ax.patches:
        xs = [p.get_x(), p.get_x() + p.get_width()] if hasattr(p, "get_width") else list(np.asarray(p.get_xy())[:, 0])
        out.append([int(round(float(v) * 1e4)) for v in (min(xs), max(xs))])
    return out


def pane(ax, kind):
    lines = []
    for x in ax.lines:
        xs, ys = plain(x.get_xdata()), plain(x.get_ydata())
        if kind == "efficiency":
            o = np.argsort(xs)
            v = [lib.log2i(k) for k in np.interp(AT, xs[o], ys[o])]
            v = [v[3 * i] if len(set(v[3 * i:3 * i + 3])) == 1 else -9999 for i in range(4)]
            lines.append({"label": "", "xs": [], "ys": v})
        else:
            lines.append({"label": x.get_label(), "xs": [int(round(v * 1e4)) for v in xs], "ys": [lib.num(v) for v in ys]})
    return {"lines": lines, "bands": bands(ax)}


def panes(fig):
    kind = "efficiency" if len(fig.axes) == 1 else "table"
    return [pane(a, kind) for a in fig.axes]


def spy():
    """what is in a figure is left beside the file it is saved in, also by worker processes"""
    real = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *a, **k):
        real(self, fname, *a, **k)
        with open(str(fname) + ".seen", "w") as f:
            json.dump(panes(self), f)
    matplotlib.figure.Figure.savefig = savefig
    return real


def seen(path):
    if not os.path.exists(path):
        return []
    with open(path + ".seen") as f:
        return json.load(f)


def number(v):
    return float("nan") if v[0] < 0 else v[0] * 10.0 ** v[1]


UNITS = {"signal": u.ct / u.s, "absolute": u.ct / u.s * u.hr**0.5, "relative": u.hr**0.5, "total": u.hr**0.5, "other": u.ct / u.s}


def make(t):
    q = QTable()
    q["chName"] = [r["ch"] for r in t["rows"]]
    for k, n in (("wl", "Wavelength"), ("lo", "LeftBinEdge"), ("hi", "RightBinEdge")):
        q[n] = np.array([r[k] for r in t["rows"]]) * 0.1 * u.um
    for c in t["cols"]:
        q[c["name"]] = np.array([number(v) for v in c["vals"]]) * UNITS[c["kind"]]
    q.meta["name"] = t["name"]
    return q


def kind(name, col):
    if name == "total_noise":
        return "total"
    if name.endswith("_noise"):
        return "relative" if col.unit == u.hr**0.5 else "absolute"
    return "signal" if name == STAR or name.endswith(("_signal", " signal")) else "other"


def tell(q):
    """a table as the specification has it (lengths 1e-4 micron)"""
    f = {k: [int(round(v * 1e4)) for v in plain(q[n])] for k, n in (("wl", "Wavelength"), ("lo", "LeftBinEdge"), ("hi", "RightBinEdge"))}
    rows = [{"ch": str(c if not isinstance(c, bytes) else c.decode()), "wl": a, "lo": b, "hi": d}
            for c, a, b, d in zip(q["chName"], f["wl"], f["lo"], f["hi"])]
    cols = [{"name": n, "kind": kind(n, q[n]), "vals": [lib.num(v) for v in plain(q[n])]} for n in q.keys()
            if kind(n, q[n]) != "other"]
    return {"name": str(q.meta.get("name", "")), "rows": rows, "cols": cols + [{"name": "QE", "kind": "other", "vals": []}]}


def print_of(q):
    return [[n, str(q[n].unit), [repr(v) for v in np.asarray(getattr(q[n], "value", q[n])).ravel().tolist()]] for n in q.keys()] + [sorted(q.meta.items())]


def file_of(path, name, exps):
    wl, v = [], []
    for i, e in enumerate(exps):
        a, b = BORDERS[i], BORDERS[i + 1]
        wl += [a + 0.002 if i else a * 0.99, b - 0.002 if i < 3 else b * 1.01]
        v += [2.0 ** -e] * 2
    return P.write_table(path, {"Wavelength": wl, name: v, "Emissivity": [0.0] * len(wl)}, {"Wavelength": "micron"})


def node(d, c, j):
    n = c["name"]
    f = file_of(os.path.join(d, "t%d.csv" % j), "Transmission", c["t"])
    els = [P.T("opticalElement", "glass", None, P.T("type", "filter"), P.T("datafile", f)),
           P.T("opticalElement", "mirror%d" % j, None, P.T("type", "surface"), P.T("temperature", "90", "K"), P.T("transmission", "1", ""), P.T("emissivity", "0.5", ""))]
    if len(set(c["q"])) > 1:
        qe = P.T("qe", " ", None, P.T("datafile", file_of(os.path.join(d, "q%d.csv" % j), n, c["q"])))
    else:
        qe = P.T("qe", repr(2.0 ** -c["q"][0]), "")
    det = P.detector(3.0, qe)
    psf = P.write_psf(os.path.join(d, "psf.fits"))
    lo = 1.2 + 1.5 * j
    if c["class"] == "phot":
        return P.photometer(n, lo, lo + 1, psf=psf, optics=els, det=det)
    return P.spectrometer(d, n, lo, lo + 1, psf=psf, R=6, optics=els, det=det)


def describe(d, case):
    kids = [P.T("foreground", "zodiacal", None, P.T("zodiacalMap", "False"), P.T("zodiacFactor", "2.0"))] if case.get("zodi") else []
    opt = P.T("optics", " ", None, P.T("Atel", "1.0", "m**2"))
    if case["force"] != "absent":
        opt.add(P.T("ForceChannelWlEdge", case["force"]))
    return P.root(d, P.common(d, kids=kids), opt, [node(d, c, j) for j, c in enumerate(case["chans"])])


def effs(case):
    return [{"name": c["name"], "t": c["t"], "q": c["q"], "only": j + 1 if case["force"] == "True" else 0} for j, c in enumerate(case["chans"])]


def draw(ev, plotter, ops, d, args, same):
    kw = dict(scale=args["scale"], channel_edges=bool(args["edges"]))
    for i, o in enumerate(ops):
        if o in ("signals", "noises"):
            fig, ax = plt.subplots(1, 1)
            getattr(plotter, "plot_signal" if o == "signals" else "plot_noise")(ax, **kw)
            ev.append({"ev": "Draw", "what": o, "panes": [pane(ax, o)], "same": same()})
        elif o == "table":
            fig, axs = plotter.plot_table(**kw)
            ev.append({"ev": "Draw", "what": o, "panes": [pane(a, o) for a in axs], "same": same()})
        elif o == "efficiency":
            fig = plotter.plot_efficiency(**kw)
            ev.append({"ev": "Draw", "what": o, "panes": panes(fig) if fig is not None else [], "same": same()})
        else:
            f = os.path.join(d, "fig%d.png" % i)
            plotter.save_fig(f, efficiency=o == "savee")
            ev.append({"ev": "Save", "what": "efficiency" if o == "savee" else "table", "file": "fig%d.png" % i,
                       "wrote": int(os.path.exists(f) and os.path.getsize(f) > 0), "same": same()})


def run(ev, case, d):
    from exorad.exorad import standard_pipeline
    from exorad.tasks import BuildChannels, LoadOptions, MergeChannelsOutput
    from astropy.io.misc.hdf5 import read_table_hdf5
    import h5py
    x = describe(d, case)
    tl = os.path.join(d, "targets.csv")
    with open(tl, "w") as f:
        f.write(P.STARS + "\n" + "".join(",".join(str(k) for k in P.star("s %d" % i, Teff=5000 + 300 * i)) + "\n" for i in range(case["stars"])))
    o = os.path.join(d, "out")
    out = os.path.join(o, "result.h5")
    standard_pipeline(options=x, target_list=tl, output=out, plot=True, full_contrib=bool(case["full"]), n_thread=case["threads"])
    chans = BuildChannels()(payload=LoadOptions()(filename=x), write=False, output=None)
    merged = tell(MergeChannelsOutput()(channels=chans))
    ev.append({"ev": "Given", "table": dict(merged, cols=[]), "chans": effs(case)})
    f = os.path.join(o, "efficiency.png")
    ev.append({"ev": "Draw", "what": "efficiency", "panes": seen(f), "same": 1})
    ev.append({"ev": "Save", "what": "efficiency", "file": "efficiency.png", "wrote": int(os.path.exists(f)), "same": 1})
    with h5py.File(out, "r") as h:
        for i in range(case["stars"]):
            n = "s %d" % i
            f = os.path.join(o, n + ".png")
            ev.append({"ev": "Given", "table": tell(read_table_hdf5(h["targets"][n]["table"], path="table")), "chans": []})
            ev.append({"ev": "Draw", "what": "table", "panes": seen(f), "same": 1})
            ev.append({"ev": "Save", "what": "table", "file": n + ".png", "wrote": int(os.path.exists(f)), "same": 1})


def unsaved(ev, case, d):
    """plots asked for, and no place to save them"""
    from exorad.tasks import BuildChannels, LoadOptions, ObserveTargetlist
    pay = LoadOptions()(filename=describe(d, case))
    ts = P.targets([P.star("s %d" % i, Teff=5000 + 300 * i) for i in range(case["stars"])])
    got = ObserveTargetlist()(targets=ts, payload=pay, channels=BuildChannels()(payload=pay, write=False, output=None), wl_range=P.wl_range(pay),
                              plot=True, out_dir=None, n_thread=case["threads"], debug=False)
    ev.append({"ev": "Observed", "asked": ["s %d" % i for i in range(case["stars"])], "got": sorted(got)})


def command(ev, case, d):
    from exorad.output.hdf5 import HDF5Output
    from exorad.utils import plotter
    f, o = os.path.join(d, "t.h5"), os.path.join(d, "plots")
    with HDF5Output(f) as out:
        g = out.create_group("targets")
        for t in case["tables"]:
            g.create_group(t["name"]).create_group("table").write_table("table", make(t))
    argv, ask = sys.argv, case["asked"]
    names = [t["name"] for t in case["tables"]]
    line = ["exorad-plot", "-i", f, "-o", o]
    if ask["how"] in ("name", "both"):
        line += ["-t", ask["name"]]
    if ask["how"] in ("number", "both"):
        line += ["-n", ",".join(str(k) for k in ask["at"])]
    refused = 0
    try:
        sys.argv = line
        plotter.main()
    except (ValueError, SystemExit):
        refused = 1
    finally:
        sys.argv = argv
    made = [n for n in os.listdir(o) if n.endswith(".png")] if os.path.isdir(o) else []
    ev.append({"ev": "Asked", "names": names, "asked": ask, "refused": refused, "plotted": sorted(n[:-4] for n in made)})
    for t in case["tables"]:
        p = os.path.join(o, t["name"] + ".png")
        if os.path.exists(p):
            ev.append({"ev": "Given", "table": tell(make(t)), "chans": []})
            ev.append({"ev": "Draw", "what": "table", "panes": seen(p), "same": 1})
            ev.append({"ev": "Save", "what": "table", "file": t["name"] + ".png", "wrote": 1, "same": 1})


def record(case):
    from exorad.utils.plotter import Plotter
    d = tempfile.mkdtemp(prefix="fig", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    multiprocessing.current_process()._config["daemon"] = False   # observations start workers of their own
    real = spy()
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    try:
        with exo.hush():
            if case["kind"] == "table":
                q = make(case["tables"][0])
                was = print_of(q)
                ev.append({"ev": "Given", "table": tell(q), "chans": []})
                draw(ev, Plotter(input_table=q), case["ops"], d, case["args"], lambda: int(print_of(q) == was))
            elif case["kind"] == "eff":
                from exorad.tasks import MergeChannelsOutput
                chans = P.build(P.load(describe(d, case)))
                q = MergeChannelsOutput()(channels=chans)
                was, text = print_of(q), repr({n: c.built_instr for n, c in chans.items()})
                ev.append({"ev": "Given", "table": tell(q), "chans": effs(case)})
                draw(ev, Plotter(input_table=q, channels=chans), case["ops"], d, case["args"],
                     lambda: int(print_of(q) == was and repr({n: c.built_instr for n, c in chans.items()}) == text))
            elif case["kind"] == "file":
                command(ev, case, d)
            elif case["saved"] == 0:
                unsaved(ev, case, d)
            else:
                run(ev, case, d)
    except Exception as ex:
        import traceback
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-1500:]})
    finally:
        matplotlib.figure.Figure.savefig = real
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Draw" and e["panes"] and e["panes"][0]["bands"]:
            e["panes"][0]["bands"][0][1] += 5
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("FigureMC", expect_actions=["MGiven", "MBegin", "Line", "Curve", "Band", "Finish", "MSave"])
    cases = ctx.pick("figures", lambda: ctx.gen("FigureGen", cfg="FigureGenThorough.cfg" if ctx.thorough else "FigureGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=200)
    ctx.samples = recs[:2]
    bad = ctx.validate("FigureTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("FigureTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "figures")
