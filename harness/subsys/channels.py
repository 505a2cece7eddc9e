"""C23, C27: channels of ChannelGen built by the real code, their wavelength
tables and windows checked against Channel.tla."""
import os
import shutil
import tempfile

import exo
import numpy as np
from astropy import units as u
from astropy.io import fits

import lib
import payload as P

exo.quiet()
U = {"um": ("micron", 1.0), "nm": ("nm", 1e3), "mm": ("mm", 1e-3)}


def text(v, digits=9):
    return repr(float(round(v, digits)))


def q(v, unit, digits=9):
    """v microns written in a unit"""
    return text(v * U[unit][1], digits), U[unit][0]


def flat(path, n):
    fits.PrimaryHDU(np.ones((n, n)) / n**2).writeto(path, overwrite=True)
    return path


def node(d, c, name):
    un, w = c["units"], c["win"]
    lo, hi = q(c["lo"] * 1e-6, un["lou"]), q(c["hi"] * 1e-6, un["hiu"])
    pix = q(c["pix"] * 0.1, un["pu"])
    n = P.T("channel", name, None, P.T("channelClass", "Photometer" if c["class"] == "phot" else "Spectrometer"),
            P.T("wl_min", *lo), P.T("wl_max", *hi), P.T("Fnum_x", c["fx"] * 0.1, ""), P.T("Fnum_y", c["fy"] * 0.1, ""))
    f = os.path.join(d, name)
    if c["class"] == "phot":
        if w["rad"]:
            ap, psf = P.T("radius", text(w["rad"] * 0.01), ""), P.write_psf(f + ".fits")
        else:
            ap, psf = P.T("EnE", text(w["ene"] * 0.01), ""), flat(f + ".fits", w["n"])
        n.add(P.T("aperture", " ", None, ap))
        if w["based"]:
            n.add(P.T("PSF", psf, None, P.T("format", "pixel_based")))
    else:
        k = c["knots"][::-1] if un["rev"] else c["knots"]
        cols = {"Wavelength": [round(x[0] * 1e-3 * U[un["wu"]][1], 9) for x in k],
                "x": [round(x[1] * 0.1 * U[un["xu"]][1], 9) for x in k]}
        sol = P.write_table(f + "_sol.csv", cols, {"Wavelength": U[un["wu"]][0], "x": U[un["xu"]][0]})
        n.add(P.T("wlSolution", " ", None, P.T("datafile", sol)))
        if c["mode"] == "R":
            n.add(P.T("targetR", c["R"], ""))
        elif c["mode"] == "tab":
            with open(f + "_R.txt", "w") as fd:
                fd.write("W\tR\n" + "".join("%r\t%d\n" % (a * 1e-4, r) for a, r in c["tab"]))
            n.add(P.T("targetR", " ", None, P.T("data", f + "_R.txt")))
        elif not c["deflt"]:
            n.add(P.T("targetR", "native"))
        n.add(P.T("PSF", P.write_psf(f + ".fits"), None, P.T("format", "pixel_based")))
        if w["ee"]:
            ee = P.write_table(f + "_ee.csv", {"Wavelength": [round(x[0] * 1e-3 * U[un["eeu"]][1], 9) for x in w["ee"]],
                                              "EE": [x[1] * 0.01 for x in w["ee"]]}, {"Wavelength": U[un["eeu"]][0]})
            n.add(P.T("EncESolution", " ", None, P.T("datafile", ee)))
        for key, tag in [("scale", "window_spatial_scale"), ("spat", "window_spatial_pixel"), ("specpix", "window_spectral_pixel")]:
            if w[key]:
                n.add(P.T(tag, text(w[key] * 0.1), ""))
    return n.add(P.T("optics", " ", None), det(c, pix))


def det(c, pix):
    n = P.detector(3.0)
    n.kids[0] = P.T("delta_pix", *pix)
    return n


def micro(col):
    return [int(round(x)) if np.isfinite(x) and abs(x) < 2e7 else -1 for x in np.atleast_1d(u.Quantity(col).to(u.um).value) * 1e6]


def nums(a):
    return [lib.num(x) for x in np.asarray(u.Quantity(a).to("").value if hasattr(a, "unit") else a, float).ravel()]


def record(case):
    d = tempfile.mkdtemp(prefix="chan", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    try:
        names = ["Ch%d" % (9 - j) for j in range(len(case["chans"]))]
        nodes = [node(d, c, n) for c, n in zip(case["chans"], names)]
        # a payload needs more than one channel to be a list of them
        nodes.append(P.photometer("Zz", 1.0, 2.0, psf=P.write_psf(os.path.join(d, "z.fits"))))
        try:
            com = P.common(d, 17, kids=[])
            path = P.root(d, com, P.T("optics", " ", None, P.T("Atel", "0.5", "m**2")), nodes)
            chans = P.build(P.load(path))
        except Exception as ex:
            import traceback
            return ev + [{"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-900:]}]
        for c, n in zip(case["chans"], names):
            desc = {k: v for k, v in c.items() if k not in ("units", "deflt")}
            ev.append({"ev": "Describe", "desc": desc})
            ch, t = chans[n], chans[n].table
            cols = [micro(t[k]) for k in ("LeftBinEdge", "RightBinEdge", "Wavelength", "Bandwidth")]
            ev += [{"ev": "Bin", "bin": dict(zip("lrcw", b))} for b in zip(*cols)]
            ev.append({"ev": "Table", "n": len(t), "named": int(all(str(x) == n for x in t["chName"]))})
            size = nums(t["WindowSize"])
            if c["class"] == "phot":
                ev += [{"ev": "Window", "size": s} for s in size]
            else:
                for s, a, b in zip(size, nums(ch.built_instr["window_spectral_width"]), nums(ch.built_instr["window_spatial_width"])):
                    ev.append({"ev": "Window", "size": s, "spectral": a, "spatial": b})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    for e in r:
        if e["ev"] == "Bin":
            e["bin"]["l"] += 900
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("ChannelMC", expect_actions=["MDescribe", "MBin", "AddWindow"])
    cases = ctx.pick("channels", lambda: ctx.gen("ChannelGen", cfg="ChannelGenThorough.cfg" if ctx.thorough else "ChannelGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=60)
    ctx.samples = recs[:2]
    bad = ctx.validate("ChannelTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("ChannelTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "channels")
