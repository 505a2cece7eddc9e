"""C25: spectra of targets from every kind of source of SourceGen, loaded by the
real code with synthetic stellar models, checked against Source.tla."""
import os
import shutil
import tempfile

import exo
import numpy as np
from astropy import units as u
from astropy.io import fits
from astropy.table import QTable

import lib
import payload as P

exo.quiet()
FLO, FHI, NF = 0.9, 8.2, 3001
CUSTOM = 6.5
UN = {"R_sun": 1.0, "km": 6.957e5, "pc": 1.0, "m": 3.0856775814913673e16, "lyr": 3.261563777, "M_sun": 1.0, "kg": 1.988409870698051e30}


def name(m, style):
    z = "%+.1f" % (m["Z"] * 0.1) if m["Z"] else "-0.0"
    t = "%03d" % m["T"] if style else "%05.1f" % m["T"]
    return "lte%s-%.1f%s%s.BT-Settl.spec.fits.gz" % (t, m["g"] * 0.1, z, "a+0.0" if style < 2 else "")


def power(wl, k):
    """surface flux of the k-th spectrum [W m-2 um-1]"""
    return 3e6 * 2.0**k * (wl / 2.0) ** k


def write_model(path, k, unit):
    wl = np.linspace(FLO, FHI, NF)
    wl = np.insert(wl, 5, wl[5])    # real models repeat some points
    f = power(wl, k)
    wu, fu = "um", "W / (m2 um)"
    if unit:
        wl, f, wu, fu = wl * 1e4, f * 0.1, "Angstrom", "erg / (s cm2 Angstrom)"
    h = fits.BinTableHDU.from_columns([fits.Column(name="Wavelength", format="D", unit=wu, array=wl),
                                       fits.Column(name="Flux", format="D", unit=fu, array=f)])
    h.header["PHXLUM"] = 1e26
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(path, overwrite=True)


def identify(sed, names, T):
    """which spectrum this is, and how scaled"""
    if sed is None:
        return "none", [0, 0]
    wl, d = sed.wl_grid.to(u.um).value, sed.data.to("W m-2 um-1").value
    if not len(wl) or not np.all(np.isfinite(d)):
        return "broken", [0, 0]
    m = (wl > wl[0] * 1.03) & (wl < wl[-1] / 1.03) & (wl > FLO * 1.1) & (wl < FHI / 1.1)
    cands = dict({n: power(wl, k) for n, k in names.items()}, custom=power(wl, CUSTOM))
    if T:
        cands["bb"] = P.planck_si(wl, T)
    best = (0.02, "unknown", 0)
    for n, c in cands.items():
        r = d[m] / c[m]
        s = np.median(r)
        if s > 0:
            best = min(best, (np.max(np.abs(r / s - 1)), n, s))
    return best[1], lib.num(best[2])


def flux(which, names, T, a, b):
    wl = np.linspace(FLO, FHI, NF)
    if which == "bb":
        wl = np.linspace(a * 1e-3, b * 1e-3, 10000)
        return np.pi * np.trapz(P.planck_si(wl, T), wl)
    return np.trapz(power(wl, CUSTOM if which == "custom" else names[which]), wl)


def record(case):
    from exorad.tasks import LoadSource
    from exorad.utils.passVal import PassVal
    d = tempfile.mkdtemp(prefix="src", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    try:
        folder, empty = os.path.join(d, "models"), os.path.join(d, "empty")
        os.mkdir(folder), os.mkdir(empty)
        names, models = {}, []
        for m in case["models"]:
            n = name(m, case["style"])
            if n not in names:
                names[n] = m["pow"]
                write_model(os.path.join(folder, n), m["pow"], case["munit"])
                models.append({"T": m["T"], "g": m["g"], "Z": m["Z"], "id": n})
        s = case["star"]
        lack = set(s["lack"])
        cells = [("star M", "M", s["Mu"], s["M"]), ("star Teff", "Teff", "K", s["T"]), ("star R", "R", s["Ru"], s["R"]), ("star D", "D", s["Du"], s["D"])]
        cols, row = ["star name"], ["alpha"]
        for c, k, un, v in cells:
            if k in lack and s["how"] == "absent":
                continue
            cols.append("%s [%s]" % (c, un))
            row.append("" if k in lack else repr(v * (1 if k == "Teff" else 0.1) * UN.get(un, 1)))
        try:
            # a second star, complete: blank cells are those of a column with numbers
            full = ["beta"] + [repr(1.5)] * (len(cols) - 1)
            t = P.targets([row, full], ",".join(cols))[0]
            ev.append({"ev": "Scene", "models": models,
                       "target": {"has": sorted({"M", "Teff", "R", "D"} - lack), "T": s["T"], "M": s["M"], "R": s["R"], "D": s["D"], "logg": s["logg"]}})
            T = None if "Teff" in lack else s["T"]
            for i, a in enumerate(case["asks"]):
                if a["table"]:
                    t.table = QTable()
                src = {"value": a["name"]}
                os.environ.pop("PHOENIX_PATH", None)
                if a["folder"] == "env":
                    os.environ["PHOENIX_PATH"] = folder
                elif a["folder"] != "none":
                    src["StellarModels"] = {"value": {"models": folder, "empty": empty, "absent": os.path.join(d, "no such")}[a["folder"]]}
                if a["name"].lower() == "custom":
                    wl = np.linspace(FLO, FHI, NF)
                    f, k = power(wl, CUSTOM), 1.0
                    un = {"Wavelength": "micron", "Sed": "W m-2 um-1"}
                    if a["cunit"]:
                        wl, f, un = wl * 1e3, f * 1e-7, {"Wavelength": "nm", "Sed": "W cm-2 nm-1"}
                    src["CustomSed"] = {"value": P.write_table(os.path.join(d, "custom%d.csv" % i), {"Wavelength": wl, "Sed": f}, un)}
                x, y = a["a"] * 1e-3, a["b"] * 1e-3
                rng = {"um": (x * u.um, y * u.um), "nm": (x * 1e3 * u.nm, y * 1e3 * u.nm), "mixed": (x * u.um, y * 1e3 * u.nm),
                       "mixed2": (x * 1e3 * u.nm, y * u.um), "plain": (x, y)}[a["unit"]]
                if a["flip"]:
                    rng = rng[::-1]
                PassVal.working_R = a["n"]
                e = {"ev": "Load", "src": {"kind": a["name"].lower() if a["name"].lower() in ("planck", "phoenix", "custom") else "other",
                                           "folder": a["folder"]}, "a": a["a"], "b": a["b"], "n": a["n"], "returned": 1}
                try:
                    with exo.hush():
                        res = LoadSource()(target=t, source=src, wl_range=rng)
                    e["out"] = "ok"
                    e["returned"] = int(res[0] is t and res[1] is t.star.sed)
                except (AttributeError, OSError) as ex:
                    e["out"] = "OSError" if isinstance(ex, OSError) else type(ex).__name__
                finally:
                    os.environ.pop("PHOENIX_PATH", None)
                sed = getattr(t.star, "sed", None)
                e["which"], e["scale"] = identify(sed, names, T)
                e["model"] = str(getattr(t.star, "model", ""))
                e["meta"] = str(t.table.meta.get("starModel", "missing")) if hasattr(t, "table") and e["out"] == "ok" else ""
                if sed is not None:
                    g = sed.wl_grid.to(u.um).value
                    e["first"], e["last"], e["got"] = int(round(g[0] * 1e3)), int(round(g[-1] * 1e3)), len(g)
                if e["out"] == "ok":
                    e["lum"] = lib.num(t.star.luminosity.to(u.L_sun).value)
                    e["flux"] = lib.num(flux(e["which"], names, T, a["a"], a["b"])) if e["which"] in names or e["which"] in ("bb", "custom") else [0, 0]
                ev.append(e)
        except Exception as ex:
            import traceback
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-900:]})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    for e in r:
        if e["ev"] == "Load" and e["out"] == "ok":
            e["scale"][1] += 1
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("SourceMC", expect_actions=["MScene", "MLoad"])
    cases = ctx.pick("sources", lambda: ctx.gen("SourceGen", cfg="SourceGenThorough.cfg" if ctx.thorough else "SourceGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=120)
    ctx.samples = recs[:2]
    bad = ctx.validate("SourceTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("SourceTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "sources")
