"""C07: zodiacal levels of the real code against Zodi.tla."""
import os
import shutil
import tempfile
from collections import OrderedDict

import exo
import numpy as np
from astropy import units as u
from astropy.io.misc.hdf5 import read_table_hdf5, write_table_hdf5
from astropy.table import Table

import payload as P

exo.quiet()
CS = 1e-2          # coefficients of generated maps are in hundredths
PK = 1e-6          # those of the packaged map in millionths
_packaged = []


def packaged():
    if not _packaged:
        t = read_table_hdf5(os.path.join(exo.REPO, "exorad/data/Zodi_map.hdf5"))
        _packaged.append(tuple(np.asarray(t[k], float) for k in ("ra_icrs", "dec_icrs", "zodi_coeff")))
    return _packaged[0]


def record(case):
    d = tempfile.mkdtemp(prefix="zodi", dir=os.environ.get("VERIF_HOME"))
    try:
        desc = {"value": "zodiacal"}
        D = case["desc"]
        on_map = D["map"] == "on" and case["has"]
        unit = CS if case["own"] or not on_map else PK
        if D["map"] != "absent":
            desc["zodiacalMap"] = {"value": D["map"] == "on"}
        if D["factor"] != -1:
            desc["zodiacFactor"] = {"value": D["factor"] * CS}
        ra, dec = float(case["ra"]), float(case["dec"])
        sky = case["sky"]
        if case["own"]:
            f = os.path.join(d, "map.hdf5")
            if D["file"] == "bad" and case["bad"] == "text":
                open(f, "w").write("no map\n")
            else:
                t = Table({"ra_icrs": [float(e["ra"]) for e in sky], "dec_icrs": [float(e["dec"]) for e in sky],
                           "zodi_coeff" if D["file"] == "good" else "coefficient": [e["coef"] * CS for e in sky]})
                write_table_hdf5(t, f, path="map")
            desc["custom_map_file"] = {"value": f}
        else:
            a, b, k = packaged()
            o = np.argsort((a - ra) ** 2 + (b - dec) ** 2)
            o = np.concatenate([o[:12], o[20::6000]])
            sky = [{"ra": int(round(a[i] * 100)), "dec": int(round(b[i] * 100)), "coef": int(round(k[i] / PK))} for i in o]
        sc = 1 if case["own"] else 100
        at = [case["ra"] * sc, case["dec"] * sc] if case["has"] else []
        fac = D["factor"] if D["factor"] == -1 else int(round(D["factor"] * CS / unit))
        ev = [{"ev": "Reset"}, {"ev": "Point", "sky": sky, "desc": dict(D, factor=fac), "at": at}]
        try:
            extra, cells = "", []
            if not case["has"]:       # a list without coordinates, or with blank cells
                k = case["lack"]
                cols = {"columns": [], "no dec": ["ra"], "no ra": ["dec"]}.get(k, ["ra", "dec"])
                extra = "".join(",star %s [deg]" % c for c in cols)
                cells = ["" if k == "blank" or (k == "blank dec" and c == "dec") else 5 for c in cols]
            other = P.star("other") + [7] * len(cells)
            t = P.targets([other, P.star() + cells], P.STARS + extra)[1]
            if case["has"]:
                t.star.ra, t.star.dec = (ra * u.deg).to(case["unit"]), (dec * u.deg).to(case["unit"])
            rng = (case["lo"] * u.um, case["hi"] * u.um)
            if case["via"] == "class":
                from exorad.models.foregrounds.zodiacalForeground import ZodiacalFrg
                co = {"coordinates": (t.star.ra, t.star.dec)} if case["has"] else {}
                rad = ZodiacalFrg(wl=np.linspace(case["lo"], case["hi"], 30) * u.um, description=desc, **co).radiance
            elif case["via"] == "task":
                from exorad.tasks.foregroundHandler import EstimateZodi
                rad = EstimateZodi()(zodi=desc, target=t, wl_range=rng).foreground["zodi"]
            else:
                from exorad.tasks import EstimateForegrounds
                fr = desc if case["id"] % 2 else OrderedDict(zodiacal=desc)
                rad = EstimateForegrounds()(foregrounds=fr, target=t, wl_range=rng).foreground["zodi"]
            wl = rad.wl_grid.to(u.um).value
            ref = 3.5e-14 * P.planck_si(wl, 5500.) + 3.58e-8 * P.planck_si(wl, 270.)
            r = rad.data.to("W m-2 um-1 sr-1").value / ref
            got = -2 if np.ptp(r) > 1e-4 * np.abs(r).max() or not np.all(np.isfinite(r)) else int(round(r.mean() / unit))
            ev.append({"ev": "Zodi", "got": got, "tol": 1 if unit == CS else 500})
        except Exception as ex:
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex)})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    r[-1]["got"] = r[-1].get("got", 0) + 5000
    return r


def check(ctx):
    ctx.mc("ZodiMC", expect_actions=["New", "Est"])
    cases = ctx.pick("zodi", lambda: ctx.gen("ZodiGen", cfg="ZodiGenThorough.cfg" if ctx.thorough else "ZodiGen.cfg"))
    if not cases:
        return
    packaged()
    recs = ctx.run(cases, record)
    ctx.samples = recs[:2]
    bad = ctx.validate("ZodiTrace", recs)
    if not bad:
        ctx.selftest("ZodiTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "zodi")
