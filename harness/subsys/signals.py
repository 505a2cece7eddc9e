"""C28: creating signals, against Signal.tla."""
import copy
import traceback

import exo
import numpy as np
from astropy import units as u
from astropy.table import Column

import lib

exo.quiet()
SED = u.W / u.m**2 / u.um
UNITS = {"um": u.um, "nm": u.nm, "mm": u.mm, "m": u.m, "AA": u.AA, "km": u.km, "s": u.s, "min": u.min, "h": u.hr, "d": u.day, "K": u.K, "1": u.Unit(""),
         "%": u.percent, "mol": u.mol, "ct/s": u.ct / u.s, "ct/min": u.ct / u.min, "ct/h": u.ct / u.hr, "1/s": 1 / u.s, "h^": u.hr**0.5, "s^": u.s**0.5,
         "sed": SED, "sed.nm": u.W / u.m**2 / u.nm, "sed.cgs": u.erg / u.s / u.cm**2 / u.um, "sed.m": u.W / u.m**2 / u.m,
         "rad": SED / u.sr, "rad.nm": u.W / u.m**2 / u.nm / u.sr, "rad.cgs": u.erg / u.s / u.cm**2 / u.um / u.sr}
DEN = {"nm": 1000, "AA": 10000, "min": 60, "s": 3600, "%": 100, "ct/min": 60, "ct/h": 3600, "s^": 60, "sed.cgs": 1000, "sed.m": 1000000, "rad.cgs": 1000}


def make(x):
    a = np.array(x["vals"], dtype=float).reshape(x["shape"])
    if x["form"] == "list":
        return a.tolist()
    if x["form"] == "array":
        return a
    if x["form"] == "column":
        return Column(a, unit=UNITS[x["unit"]] if x["unit"] else None)
    return a * UNITS[x["unit"]]


def same(a, b):
    if isinstance(a, list):
        return a == b
    return type(a) is type(b) and getattr(a, "unit", None) == getattr(b, "unit", None) and np.array_equal(np.asarray(a), np.asarray(b))


def seen(q, x):
    name = next((k for k in UNITS if UNITS[k] == q.unit), str(q.unit))
    den = DEN.get(x["unit"], 1)
    return {"unit": name, "shape": list(q.shape), "vals": [lib.scaled(v * den, tol=1e-9) for v in np.asarray(q.value).ravel()]}


def record(case):
    from exorad.models import signal
    from exorad.models.noise import Noise
    ev = [{"ev": "Reset"}]
    try:
        for s in case["signals"]:
            wl, data, time = make(s["wl"]), make(s["data"]), make(s["time"])
            kept = copy.deepcopy([wl, data, time])
            if s["notime"]:
                s = dict(s, time={"form": "quantity", "unit": "h", "shape": [1], "vals": [0]})
            e = {"ev": "Create", "kind": s["kind"], "wl": s["wl"], "data": s["data"], "time": s["time"], "out": "ok"}
            cls = Noise if s["kind"] == "Noise" else getattr(signal, s["kind"])
            args = {"data_unit": u.K} if s["kind"] == "CustomSignal" else {}
            if not s["notime"]:
                args["time_grid"] = time
            try:
                g = cls(wl_grid=wl, data=data, **args)
                e["got"] = {"wl": seen(g.wl_grid, s["wl"]), "data": seen(g.data, s["data"]), "time": seen(g.time_grid, s["time"])}
                # what is done with the signal later is no change of its inputs either
                if g.data.ndim == 1 and g.wl_grid.size > 1 and len(set(g.wl_grid.value)) > 1:
                    g.spectral_rebin(np.linspace(g.wl_grid.min(), g.wl_grid.max(), 3))
            except Exception as ex:
                e["out"] = "ValueError" if isinstance(ex, ValueError) else "%s: %s" % (type(ex).__name__, str(ex)[:200])
            e["inputs"] = 1 if all(same(a, b) for a, b in zip([wl, data, time], kept)) else 0
            ev.append(e)
    except Exception as ex:
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-1500:]})
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Create" and e["out"] == "ok":
            e["got"]["data"]["vals"][0] += 1
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("SignalMC", expect_actions=["MCreate", "MRefuse"])
    cases = ctx.pick("signals", lambda: ctx.gen("SignalGen", cfg="SignalGenThorough.cfg" if ctx.thorough else "SignalGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record)
    ctx.samples = [r[:4] for r in recs[:2]]
    bad = ctx.validate("SignalTrace", recs, parallel=4, traces=sum(len(r) - 1 for r in recs))
    if not bad:
        ctx.selftest("SignalTrace", recs, corrupt)
    small = [dict(cases[b["trace"]], signals=[cases[b["trace"]]["signals"][b["line"] - 1]]) if recs[b["trace"]][b["line"]]["ev"] == "Create" else cases[b["trace"]] for b in bad]
    ctx.report([dict(b, trace=i, line=0) for i, b in enumerate(bad)], small, [[recs[b["trace"]][b["line"]]] for b in bad], "signals")
