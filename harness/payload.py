"""Writes payload descriptions and data files for the real code."""
import os
import zlib
from decimal import Decimal

import exo  # noqa: F401
import numpy as np
from astropy import units as u
from astropy.io import ascii as ap_ascii
from astropy.io import fits
from astropy.table import Table


# other units to say the same in, and how much more of them it takes
OTHERS = {"micron": [("micron", "1"), ("nm", "1000"), ("mm", "0.001"), ("Angstrom", "10000"), ("m", "0.000001")],
          "m**2": [("m**2", "1"), ("cm**2", "10000"), ("mm**2", "1000000")],
          "K": [("K", "1"), ("mK", "1000"), ("kK", "0.001")],
          "count/s": [("count/s", "1"), ("count/ms", "0.001"), ("count/ks", "1000")],
          "Hz": [("Hz", "1"), ("mHz", "1000"), ("kHz", "0.001"), ("1/s", "1")],
          "s": [("s", "1"), ("ms", "1000"), ("ks", "0.001")],
          "sr": [("sr", "1"), ("mrad2", "1000000"), ("usr", "1000000")],
          "W m-2 um-1 sr-1": [("W m-2 um-1 sr-1", "1"), ("W m-2 nm-1 sr-1", "0.001"), ("erg s-1 cm-2 um-1 sr-1", "1000")],
          "nm": [("nm", "1"), ("um", "0.001"), ("m", "0.000000001")]}
UNITS = 0     # which of them this case is said in, 0 for none


def restate(name, unit):
    """the unit in which a quantity is said, and how much more of it that takes"""
    if not UNITS or unit not in OTHERS:
        return unit, Decimal(1)
    o = OTHERS[unit]
    unit, scale = o[zlib.crc32(("%s%d" % (name, UNITS)).encode()) % len(o)]
    return unit, Decimal(scale)


class Node:
    """one tag of a payload description"""

    def __init__(self, tag, text=" ", unit=None, *kids):
        self.tag, self.text, self.unit, self.kids = tag, text, unit, list(kids)

    def add(self, *kids):
        self.kids += [k for k in kids if k is not None]
        return self

    def xml(self, ind=""):
        text, unit = self.text, self.unit
        if unit in OTHERS:
            unit, scale = restate(self.tag, unit)
            text = text if scale == 1 else "%.17g" % (Decimal(str(text)) * scale)
        a = "" if unit is None else ' unit="%s"' % unit
        if not self.kids:
            return "%s<%s%s> %s </%s>\n" % (ind, self.tag, a, text, self.tag)
        return "%s<%s%s> %s\n%s%s</%s>\n" % (
            ind, self.tag, a, text, "".join(k.xml(ind + " ") for k in self.kids), ind, self.tag)


def T(tag, text=" ", unit=None, *kids):
    return Node(tag, text, unit, *kids)


def write_table(path, cols, units):
    t = Table()
    for k, v in cols.items():
        unit, scale = restate(os.path.basename(path) + k, units.get(k))
        t[k] = np.asarray(v) if scale == 1 else np.asarray(v) * float(scale)
        if unit:
            t[k].unit = u.Unit(unit)
    ap_ascii.write(t, path, format="ecsv", overwrite=True, delimiter=",")
    return path


def write_psf(path, size=5):
    y, x = np.mgrid[:size, :size] - size // 2
    im = np.exp(-(x**2 + y**2) / 2.0)
    fits.PrimaryHDU(im / im.sum()).writeto(path, overwrite=True)
    return path


def detector(pix, qe=None, wl_min=1.0, cut_off=8.0, well=100000, dark=1, read=15, fwell=1.0, ndr="0.", extra=()):
    return T("detector", " ", None,
             T("delta_pix", repr(float(pix)), "micron"), T("read_noise", read, "count"),
             T("dark_current", dark, "count/s"), T("well_depth", well, "count"),
             T("f_well_depth", fwell, ""), qe or T("qe", "0.5", ""),
             T("wl_min", repr(float(wl_min)), "micron"), T("cut_off", repr(float(cut_off)), "micron"),
             T("freqNDR", ndr, "Hz"), *extra)


def common(d, working_R=97, wl_min=1.0, wl_max=8.0, source="planck", kids=()):
    return T("common", " ", None, T("working_R", working_R), T("sourceSpectrum", source),
             T("wl_min", repr(float(wl_min)), "micron"), T("wl_max", repr(float(wl_max)), "micron"), *kids)


def photometer(name, lo, hi, fx=2.0, fy=2.0, psf=None, radius=3, aperture=None, optics=(), det=None, extra=()):
    n = T("channel", name, None, T("channelClass", "Photometer"),
          T("wl_min", repr(float(lo)), "micron"), T("wl_max", repr(float(hi)), "micron"), T("Fnum_x", fx, ""))
    if fy is not None:
        n.add(T("Fnum_y", fy, ""))
    n.add(aperture or T("aperture", " ", None, T("radius", radius, "")))
    if psf:
        n.add(T("PSF", psf, None, T("format", "pixel_based")))
    return n.add(T("optics", " ", None, *optics), det or detector(3.0), *extra)


def wl_solution(d, name, npix, pix, lo=1.0, hi=8.0, flip=False, bend=0.0):
    """linear, or with more (bend > 0) or fewer pixels per micron at short wavelengths"""
    x = np.linspace(0, npix * pix, 8)
    t = np.linspace(0, 1, 8)
    wl = lo + (hi - lo) * (t + bend * t * (t - 1))
    return write_table(os.path.join(d, name), {"Wavelength": wl[::-1] if flip else wl, "x": x},
                       {"Wavelength": "micron", "x": "micron"})


def spectrometer(d, name, lo, hi, fx=2.0, fy=2.0, psf=None, R=5.0, pix=3.0, npix=140, flip=False,
                 optics=(), det=None, extra=(), sol=(1.0, 8.0), bend=0.0):
    f = wl_solution(d, "sol_%s.csv" % name, npix, pix, sol[0], sol[1], flip, bend)
    n = T("channel", name, None, T("channelClass", "Spectrometer"),
          T("wl_min", repr(float(lo)), "micron"), T("wl_max", repr(float(hi)), "micron"),
          T("Fnum_x", fx, ""), T("Fnum_y", fy, ""), T("wlSolution", " ", None, T("datafile", f)))
    if R is not None:
        n.add(T("targetR", R, "" if R != "native" else None))
    if psf:
        n.add(T("PSF", psf, None, T("format", "pixel_based")))
    return n.add(T("optics", " ", None, *optics), det or detector(pix), *extra)


def root(d, com, optics, channels, fname="payload.xml"):
    r = T("root", " ", None, T("ConfigPath", d), com, optics, *channels)
    p = os.path.join(d, fname)
    with open(p, "w") as f:
        f.write(r.xml())
    return p


def load(path):
    from exorad.tasks import LoadOptions
    with exo.hush():
        return LoadOptions()(filename=path)


def build(payload):
    from exorad.tasks import BuildChannels
    with exo.hush():
        return BuildChannels()(payload=payload, write=False, output=None)


def omega(fx, fy):
    """solid angle of the elliptical cone with f-numbers fx, fy"""
    ph = (np.arange(20000) + 0.5) * (2 * np.pi / 20000)
    a, b = 1 / (2 * fx), 1 / (2 * fy)
    r = a * b / np.sqrt((b * np.cos(ph)) ** 2 + (a * np.sin(ph)) ** 2)
    return float(np.mean(1 - 1 / np.sqrt(1 + r * r)) * 2 * np.pi)


HC = 6.62607015e-34 * 299792458.0


def planck_si(wl, T):
    """W m^-2 sr^-1 um^-1 at wl [um]"""
    h, c, k = 6.62607015e-34, 299792458.0, 1.380649e-23
    w = np.asarray(wl, float) * 1e-6
    return 2 * h * c * c / w**5 / np.expm1(h * c / (w * k * T)) * 1e-6


STARS = "star name,star M [M_sun],star Teff [K],star R [R_sun],star D [pc],star L [L_sun]"


def targets(rows, columns=STARS, fname=None):
    """real targets from a csv target list; rows are lists of texts"""
    from exorad.tasks import LoadTargetList
    import tempfile
    d = tempfile.mkdtemp(prefix="tl", dir=os.environ.get("VERIF_HOME"))
    p = fname or os.path.join(d, "targets.csv")
    with open(p, "w") as f:
        f.write(columns + "\n" + "".join(",".join(str(x) for x in r) + "\n" for r in rows))
    with exo.hush():
        return LoadTargetList()(target_list=p).target


def star(name="alpha", M=1.0, Teff=5500, R=1.0, D=30, L=1.0):
    return [name, M, Teff, R, D, L]


def wl_range(payload):
    return (payload["common"]["wl_min"]["value"], payload["common"]["wl_max"]["value"])


def observe(target, payload, channels, rng=None):
    from exorad.tasks import ObserveTarget
    with exo.hush():
        return ObserveTarget()(target=target, payload=payload, channels=channels, wl_range=rng or wl_range(payload))
