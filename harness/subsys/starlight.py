"""C26: stars with given photons observed with channels of StarlightGen, the
recorded star columns checked against Starlight.tla."""
import os
import shutil
import tempfile

import exo
import numpy as np
from astropy import units as u
from astropy.io import fits

import lib
import payload as P
from subsys import optics as O
from subsys.channels import flat, micro

exo.quiet()


def plateaus(exps):
    return O.file_cols({"lo": 1, "hi": 3}), [O.val(e) for e in exps]


def table(path, col, exps):
    (wl, idx), v = plateaus(exps)
    return P.write_table(path, {"Wavelength": wl, col: [v[i] for i in idx]}, {"Wavelength": "micron"})


def node(d, c, name, psf):
    (wl, idx), v = plateaus(c["t"])
    f = P.write_table(os.path.join(d, name + "_t.csv"), {"Wavelength": wl, "Transmission": [v[i] for i in idx], "Emissivity": [0.0] * len(wl)},
                      {"Wavelength": "micron"})
    els = [P.T("opticalElement", "glass", None, P.T("type", "filter"), P.T("datafile", f))]
    if c["qefile"] or len(set(c["q"])) > 1:
        qe = P.T("qe", " ", None, P.T("datafile", table(os.path.join(d, name + "_q.csv"), name, c["q"])))
    else:
        qe = P.T("qe", repr(O.val(c["q"][0])), "")
    unit, k = ("nm", 1e3) if c["atunit"] == "nm" else ("micron", 1)
    det = P.detector(O.PIX, qe)
    if c["class"] == "phot":
        ap = P.T("aperture", " ", None)
        ap.add(P.T("EnE", c["ene"] * 0.01, "") if c["ene"] else P.T("radius", 3, ""))
        if c["corr"]:
            ap.add(P.T("apertureCorrection", c["corr"] * 0.01, ""))
        n = P.photometer(name, 1, 2, psf=psf, aperture=ap, optics=els, det=det)
    else:
        n = P.spectrometer(d, name, 1, 2, psf=psf, R=c["R"] if c["mode"] == "R" else "native", pix=O.PIX, npix=c["npix"],
                           flip=bool(c["flip"]), optics=els, det=det)
    n.kids[1], n.kids[2] = P.T("wl_min", repr(c["lo"] * 1e-3 * k), unit), P.T("wl_max", repr(c["hi"] * 1e-3 * k), unit)
    return n


def record(case):
    from exorad.models.signal import Sed
    from exorad.tasks import PrepareTarget, PropagateTargetLight
    d = tempfile.mkdtemp(prefix="star", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    try:
        psf = P.write_psf(os.path.join(d, "psf.fits"))
        im = fits.getdata(psf)
        at = case["atel"] * 0.01
        opt = P.T("optics", " ", None, P.T("Atel", repr(round(at if case["aunit"] == "m**2" else at * 1e4, 6)), case["aunit"]))
        if case["force"] != "absent":
            opt.add(P.T("ForceChannelWlEdge", case["force"]))
        names = ["Ch%d" % (9 - j) for j in range(len(case["chans"]))]
        nodes = [node(d, c, n, psf) for c, n in zip(case["chans"], names)]
        nodes.append(P.photometer("Zz", 1.0, 2.0, psf=psf))
        try:
            chans = P.build(P.load(P.root(d, P.common(d, O.WR), opt, nodes)))
            t = P.targets([P.star()])[0]
            w = np.array([s[0] for s in case["star"]], float) * 1e-3
            sed = np.array([s[1] for s in case["star"]], float) * P.HC / (w * 1e-6)
            with exo.hush():
                t = PrepareTarget()(target=t, channels=chans)
                t.star.sed = Sed(w * 1e3 * u.nm if case["nm"] else w * u.um, sed * u.W / u.m**2 / u.um)
                tab = PropagateTargetLight()(target=t, channels=chans).table
            for c, n in zip(case["chans"], names):
                r = np.array([str(x) == n for x in tab["chName"]])
                bins = [list(b) for b in zip(micro(chans[n].table["LeftBinEdge"]), micro(chans[n].table["RightBinEdge"]))]
                ch = {"class": c["class"], "lo": c["lo"] * 1000, "hi": c["hi"] * 1000, "force": int(case["force"] == "True"), "bins": bins,
                      "t": c["t"], "q": c["q"], "atel": case["atel"], "corr": c["corr"], "ene": c["ene"],
                      "peak": lib.num(im.max() if c["class"] == "phot" else im.sum(axis=0).max()), "pixw": lib.num(7.0 / c["npix"])}
                ev.append({"ev": "Point", "chan": ch, "star": case["star"]})
                cols = [[lib.num(x) for x in u.Quantity(tab[k]).to(un).value[r]] for k, un in
                        (("starFlux", "W/m2"), ("starSignal", "ct/s"), ("star_signal_inAperture", "ct/s"), ("star_MaxSignal_inPixel", "ct/s"))]
                ev.append({"ev": "Seen", "flat": case["flat"], "rows": [dict(zip(("flux", "signal", "aperture", "pixel"), x)) for x in zip(*cols)]})
        except Exception as ex:
            import traceback
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-900:]})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    for e in r:
        if e["ev"] == "Seen":
            for x in e["rows"]:
                if x["signal"][0] > 0:
                    x["signal"][1] += 1
                    return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("StarlightMC", expect_actions=["MPoint", "Count"])
    cases = ctx.pick("starlight", lambda: ctx.gen("StarlightGen", cfg="StarlightGenThorough.cfg" if ctx.thorough else "StarlightGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=120)
    ctx.samples = recs[:2]
    bad = ctx.validate("StarlightTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("StarlightTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "starlight")
