"""C32: images of a star of ImageGen given to channels in every form, the light of
the brightest pixel checked against Image.tla."""
import os
import shutil
import tempfile

import exo
import numpy as np
from astropy import units as u
from astropy.io import fits

import lib
import payload as P
from subsys.channels import micro

exo.quiet()
NPIX, LO, HI = 2800, 1.0, 8.0


def sampled(d, look, name):
    """fits files, one or a folder of them"""
    c, imgs = look["chan"], look["imgs"]
    many = len(imgs) > 1 or c["form"] >= 2
    if many:
        os.makedirs(os.path.join(d, name))
    for j, i in enumerate(imgs):
        px = np.array(i["px"], float)
        h = fits.PrimaryHDU(px / px.sum())
        h.header["WAVELEN"] = i["wl"] * 1e-3
        h.header["CDELT1"] = h.header["CDELT2"] = (i["cx"] or 1000) * 1e-3
        h.header["CRPIX1"] = h.header["CRPIX2"] = px.shape[0] // 2 + 1
        # names that sort otherwise than the wavelengths
        f = os.path.join(d, name, "im%d.fits" % ((7 * j + 3) % 5)) if many else os.path.join(d, name + ".fits")
        h.writeto(f)
    if not many:
        return f
    return os.path.join(d, name) + ("/" if c["form"] % 2 else "")


def tabulated(d, look, name):
    """as PAOS leaves them: a group per wavelength, in it one per surface, the last is the detector's"""
    import h5py
    f = os.path.join(d, name + ".h5")
    with h5py.File(f, "w") as fd:
        fd.create_group("info")["file_name"] = "x"
        for i in look["imgs"]:
            g = fd.create_group(str(i["wl"] * 1e-3))
            px = np.array(i["px"], float)
            px /= px.sum()
            for s, im in (("S02", px[::-1] * 0 + 1.0 / px.size), ("S05", px)):
                k = g.create_group(s)
                dx, dy = i["cx"] * 1e-10, i["cy"] * 1e-10
                n = px.shape[0]
                k["amplitude"], k["dx"], k["dy"], k["fratio"] = np.sqrt(im), dx, dy, 20.0
                k["extent"] = np.array([-dx * n / 2, dx * n / 2, -dy * n / 2, dy * n / 2])
    return f


def node(d, look, name):
    c = look["chan"]
    lam, pix = c["lam"] * 1e-3, round(c["pix"] * 1e-4, 6)
    psf = None
    if c["from"] in ("pixels", "samples"):
        psf = T = P.T("PSF", sampled(d, look, name), None)
        if c["from"] == "pixels":
            T.add(P.T("format", "pixel_based"))
    elif c["from"] == "waves":
        psf = P.T("PSF", tabulated(d, look, name), None, P.T("format", "paos"))
    extra = [psf] if psf else []
    det = P.detector(pix)
    if c["class"] == "phot":
        return P.photometer(name, round(lam * 0.9, 6), round(lam * 1.1, 6), fx=c["fx"] / 10, fy=c["fy"] / 10, det=det, extra=extra)
    if c["wfe"]:
        nm = c["form"] % 2 == 0
        extra.append(P.T("WFErms", repr(round(c["wfe"] * 0.01 * lam * (1000 if nm else 1), 6)), "nm" if nm else "micron"))
    # seven bins, the fourth has its centre at the wavelength
    lo = lam / (1 + 0.5 / 400) / (1 + 1 / 400) ** 3
    return P.spectrometer(d, name, lo, lo * (1 + 1 / 400) ** 7, fx=c["fx"] / 10, fy=c["fy"] / 10, R=400, pix=pix,
                          npix=NPIX, sol=(LO, HI), flip=c["form"] in (1, 2), det=det, extra=extra)


def record(case):
    from exorad.models.signal import Sed
    from exorad.tasks import PrepareTarget, PropagateTargetLight
    d = tempfile.mkdtemp(prefix="image", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    try:
        names = ["Ch%d" % (9 - j) for j in range(len(case["looks"]))]
        try:
            opt = P.T("optics", " ", None, P.T("Atel", "1.0", "m**2"))
            chans = P.build(P.load(P.root(d, P.common(d), opt, [node(d, x, n) for x, n in zip(case["looks"], names)])))
            t = P.targets([P.star()])[0]
            w = np.linspace(1.5, 5, 70001)
            with exo.hush():
                t = PrepareTarget()(target=t, channels=chans)
                t.star.sed = Sed(w * u.um, 1e9 * P.HC / (w * 1e-6) * u.W / u.m**2 / u.um)
                tab = PropagateTargetLight()(target=t, channels=chans).table
            for x, n in zip(case["looks"], names):
                r = np.array([str(y) == n for y in tab["chName"]])
                peak = u.Quantity(tab["star_MaxSignal_inPixel"][r]).to("ct/s").value
                all_ = u.Quantity(tab["starSignal"][r]).to("ct/s").value
                if x["chan"]["class"] == "spec":
                    all_ = all_ / u.Quantity(tab["Bandwidth"][r]).to("um").value * ((HI - LO) / NPIX)
                    off = abs(u.Quantity(tab["Wavelength"][r]).to("um").value / (x["chan"]["lam"] * 1e-3) - 1)
                    assert off.min() < 1e-6, "no bin at the wavelength"
                    peak, all_ = peak[[off.argmin()]], all_[[off.argmin()]]
                ev.append({"ev": "Describe", "chan": x["chan"], "imgs": x["imgs"]})
                ev.append({"ev": "Seen", "share": lib.num(float(np.median(peak / all_)))})
        except Exception as ex:
            import traceback
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-900:]})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    for e in r:
        if e["ev"] == "Seen":
            e["share"][1] += 1
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("ImageMC", expect_actions=["MDescribe", "Choose", "Lay", "Slide"])
    cases = ctx.pick("images", lambda: ctx.gen("ImageGen", cfg="ImageGenThorough.cfg" if ctx.thorough else "ImageGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=120)
    ctx.samples = recs[:2]
    bad = ctx.validate("ImageTrace", recs, parallel=8)
    if not bad:
        ctx.selftest("ImageTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "images")
