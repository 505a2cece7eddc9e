"""C24: real signals resampled along chains of grids from RebinGen."""
import exo
import numpy as np
from astropy import units as u

from exorad.models import signal as S
from exorad.utils.exolib import rebin

exo.quiet()
KIND = {"signal": (S.Signal, u.Unit("")), "sed": (S.Sed, u.Unit("W m-2 um-1")), "counts": (S.CountsPerSeconds, u.Unit("ct/s"))}
SC = 1e-3


def wl(xs, unit):
    a = np.array([np.nan if x == 0 else x / 16.0 for x in xs])
    return a * u.um if unit == "um" else (a * 1000) * u.nm


def enc(q):
    v = np.asarray(getattr(q, "value", q), float)
    return [int(round(x / SC)) if np.isfinite(x) and abs(x / SC) < 1e9 else -999999 for x in v]


def encg(q):
    q = u.Quantity(q).to(u.um).value * 16
    return [0 if np.isnan(x) else int(round(x)) if abs(x - round(x)) < 1e-6 else -1 for x in q]


def record(case):
    ev = [{"ev": "Reset"}, {"ev": "Signal", "grid": case["grid"], "data": case["data"], "unit": "um"}]
    g, d, kind = wl(case["grid"], "um"), np.array(case["data"]) * SC, case["kind"]
    try:
        if kind in KIND:
            unit = KIND[kind][1]
            sig = KIND[kind][0](g, d * unit)
        else:
            unit = u.Unit("W") if kind == "function" else u.Unit("")
            cur = [g, d * unit if kind == "function" else d]
        for r in case["reqs"]:
            x = wl(r["x"], r["unit"])
            x0 = x.copy()
            if kind in KIND:
                sig0 = [sig.wl_grid, sig.data, sig.wl_grid.copy(), sig.data.copy()]
                try:
                    sig.spectral_rebin(x)
                    out = "ok"
                except ValueError:
                    out = "ValueError"
                gg, dd = sig.wl_grid, sig.data
                kept = np.array_equal(x, x0, equal_nan=True)
            else:
                c0 = [cur[0].copy(), cur[1].copy()]
                try:
                    res = rebin(x, cur[0], cur[1])
                    out = "ok"
                except ValueError:
                    out, res = "ValueError", cur
                kept = np.array_equal(x, x0, equal_nan=True) and np.array_equal(cur[0], c0[0], equal_nan=True) \
                    and np.array_equal(cur[1], c0[1], equal_nan=True)
                gg, dd = res
                dd = u.Quantity(dd, copy=True)
                dd[np.isnan(dd)] = 0 * dd.unit    # what signals do with missing values
                cur = [gg, dd if kind == "function" else dd.value]
            ev.append({"ev": "Rebin", "x": r["x"], "unit": r["unit"], "out": out, "grid": encg(gg), "data": enc(dd),
                       "dunit": "same" if u.Quantity(dd).unit == unit else str(u.Quantity(dd).unit), "kept": int(kept)})
    except Exception as ex:
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex)})
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Rebin" and e["out"] == "ok":
            e["data"][0] += 5
            return r
    return r[:1] + [{"ev": "Crash", "error": "none"}]


def check(ctx):
    ctx.mc("RebinMC", expect_actions=["Go"])
    cases = ctx.pick("rebin", lambda: ctx.gen("RebinGen", cfg="RebinGenThorough.cfg" if ctx.thorough else "RebinGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record)
    ctx.samples = recs[:2]
    bad = ctx.validate("RebinTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("RebinTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "rebin")
