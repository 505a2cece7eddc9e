"""C31: one instrument described in many ways (DialectGen), built and observed
by the real code, checked against Dialect.tla."""
import os
import random
import shutil
import tempfile

import exo
import numpy as np
from astropy import units as u

import lib
import payload as P

exo.quiet()
UNIT = {"length": {}, "area": {"m2": "m**2", "cm2": "cm**2", "dm2": "dm**2"}, "rate": {"s": "count/s", "min": "count/min", "h": "count/h"},
        "freq": {"permin": "1/min"}, "time": {}, "temp": {}, "angle": {}, "number": {"one": None},
        "radiance": {"um": "W m-2 um-1 sr-1", "nm": "W m-2 nm-1 sr-1", "cm": "W cm-2 cm-1 sr-1"}}
WL = np.linspace(0.5, 9.5, 37)
CLASS = {"Phot": "phot", "Spec": "spec", "Zoom": "native"}


class Section:
    """the places of one section, as texts"""

    def __init__(self, desc, sec):
        self.w = {n: w for (s, n), w in desc.items() if s == sec}
        self.sec = sec

    def amount(self, n):
        a = self.w[n]["amount"]
        return a[0] / a[1]

    def unit(self, n):
        w = self.w[n]
        return UNIT[w["kind"]].get(w["unit"], w["unit"])

    def tag(self, tag, n):
        return P.T(tag, repr(self.amount(n)), self.unit(n))

    def form(self, *ns):
        return any(self.w[n]["form"] == "table" for n in ns)

    def table(self, path, wl, cols, units=None):
        """cols over wavelengths given in microns, written as the word for n says"""
        c = {"Wavelength": WL * self.amount(wl)}
        c.update(cols)
        return P.write_table(path, c, dict({"Wavelength": self.unit(wl)}, **(units or {})))


def flat(s, d, name, t, e, wl):
    """an element of constant transmission and emissivity"""
    n = P.T("opticalElement", name, None, P.T("type", "filter"), s.tag("temperature", name + "T"))
    if s.form(t, e):
        n.add(P.T("datafile", s.table(os.path.join(d, s.sec + name + ".csv"), wl,
                                      {"Transmission": WL * 0 + s.amount(t), "Emissivity": WL * 0 + s.amount(e)})))
    else:
        n.add(P.T("transmission", repr(s.amount(t))), P.T("emissivity", repr(s.amount(e))))
    return n


def channel(d, name, desc, psf, n):
    s = Section(desc, name)
    d = os.path.join(d, str(n))
    os.makedirs(d, exist_ok=True)
    glass = flat(s, d, "glass", "glasst", "glasse", "qewl")
    if s.amount("sa"):
        glass.add(s.tag("solid_angle", "sa"))
    els = [glass, P.T("opticalElement", "band", None, P.T("type", "filter"), P.T("transmission", 0.8),
                      s.tag("wl_min", "bandlo"), s.tag("wl_max", "bandhi"))]
    if name == "Spec" and s.amount("slit"):
        els.insert(0, P.T("opticalElement", "slit", None, P.T("type", "slit"), s.tag("width", "slit")))
    els.append(P.T("opticalElement", "box", None, P.T("type", "detector box"), s.tag("temperature", "boxT")))
    if s.form("qe"):
        qe = P.T("qe", " ", None, P.T("datafile", s.table(os.path.join(d, name + "qe.csv"), "qewl", {name: WL * 0 + s.amount("qe")})))
    else:
        qe = P.T("qe", repr(s.amount("qe")), "")
    det = P.T("detector", " ", None, s.tag("delta_pix", "pix"), P.T("read_noise", 15, "count"), s.tag("dark_current", "dark"),
              P.T("well_depth", 100000, "count"), P.T("f_well_depth", 1.0, ""), qe, s.tag("wl_min", "dwl"), s.tag("cut_off", "cut"),
              s.tag("freqNDR", "freq"))
    if s.amount("ft"):
        det.add(s.tag("frame_time", "ft"))
    lo, hi = s.tag("wl_min", "wl_min"), s.tag("wl_max", "wl_max")
    if name == "Phot":
        c = P.photometer(name, 1, 2, psf=psf, optics=els, det=det)
        c.kids[1], c.kids[2] = lo, hi
    else:
        x = np.linspace(0, 431, 8)
        f = P.write_table(os.path.join(d, name + "sol.csv"), {"Wavelength": np.linspace(1, 8, 8) * s.amount("solwl"), "x": x * s.amount("solx")},
                          {"Wavelength": s.unit("solwl"), "x": s.unit("solx")})
        c = P.T("channel", name, None, P.T("channelClass", "Spectrometer"), lo, hi, P.T("Fnum_x", 2.0, ""), P.T("Fnum_y", 2.5, ""),
                P.T("wlSolution", " ", None, P.T("datafile", f)), P.T("targetR", *((12, "") if name == "Spec" else ("native", None))),
                P.T("PSF", psf, None, P.T("format", "pixel_based")), P.T("optics", " ", None, *els), det)
    return c


def mix(node, rng):
    """the parts of every section in another order; what has an order keeps it"""
    ordered = [k for k in node.kids if k.tag in ("opticalElement", "foreground", "channel")]
    others = [k for k in node.kids if k not in ordered]
    rng.shuffle(others)
    kids = []
    while ordered or others:
        take = ordered if (ordered and (not others or rng.random() < 0.5)) else others
        kids.append(take.pop(0))
        if rng.random() < 0.1 and kids[-1].kids is not None:
            kids[-1].kids = list(kids[-1].kids) + [P.T("comment", "said otherwise")]
    node.kids = kids
    for k in kids:
        if k.tag != "comment":
            mix(k, rng)


def instrument(d, desc, order, mixing, psf, n):
    s = Section(desc, "common")
    dn = os.path.join(d, str(n))
    os.makedirs(dn, exist_ok=True)
    sky = s.table(os.path.join(dn, "sky.csv"), "skywl", {"Radiance": 1e-3 * (1 + WL / 8) * s.amount("skyrad"), "Transmission": 1 - WL / 20},
                  {"Radiance": s.unit("skyrad")})
    com = P.T("common", " ", None, P.T("working_R", 97), P.T("sourceSpectrum", "planck"), s.tag("wl_min", "wl_min"), s.tag("wl_max", "wl_max"),
              P.T("foreground", "sky", None, P.T("datafile", sky)),
              P.T("foreground", "zodiacal", None, P.T("zodiacalMap", "False"), P.T("zodiacFactor", 2.5)))
    lens = s.table(os.path.join(dn, "lens.csv"), "filewl", {"Transmission": 0.4 + WL / 20, "Emissivity": 0.1 + WL * 0})
    opt = P.T("optics", " ", None, s.tag("Atel", "atel"), flat(s, dn, "mirror", "mirrort", "mirrore", "filewl"),
              P.T("opticalElement", "lens", None, P.T("type", "filter"), P.T("temperature", 150, "K"), P.T("datafile", lens)))
    chans = [channel(d, c, desc, psf, n) for c in order]
    if mixing:
        rng = random.Random(mixing)
        for x in [com, opt] + chans:
            mix(x, rng)
    path = P.root(dn, com, opt, chans)
    pay = P.load(path)
    built = P.build(pay)
    tab = P.observe(P.targets([P.star()])[0], pay, built).table
    out = []
    for c in order:
        r = np.array([str(x) == c for x in tab["chName"]])
        if not r.any():
            continue
        cols = []
        for k in tab.colnames:
            v = tab[k][r]
            if v.dtype.kind not in "fiu":
                continue
            q = u.Quantity(v).decompose(bases=[u.um, u.s, u.ct, u.kg, u.K, u.sr]).value
            cols.append({"name": k, "vals": [lib.num(x) for x in np.asarray(q, float).ravel()]})
        out.append({"chan": c, "cols": cols})
    return out


def record(case):
    d = tempfile.mkdtemp(prefix="dia", dir=os.environ.get("VERIF_HOME"))
    rows = case["base"]["rows"]
    desc = {(r["sec"], r["name"]): dict(r) for r in rows}
    order, mixing, n = case["base"]["chans"], 0, 0
    ev = [{"ev": "Reset"}, {"ev": "Describe", "rows": rows, "chans": order}]
    try:
        try:
            psf = P.write_psf(os.path.join(d, "psf.fits"))
            for o in case["ops"]:
                k, p = o["op"], (o["sec"], o["name"])
                e = {"ev": k, "sec": o["sec"], "name": o["name"]}
                if k == "Retell":
                    e["units"] = [{x: w[x] for x in ("sec", "name", "unit")} for w in o["units"]]
                    for w in o["units"]:
                        desc[w["sec"], w["name"]].update(unit=w["unit"], amount=w["amount"])
                elif k == "Reword":
                    e["unit"] = o["unit"]
                    desc[p].update(unit=o["unit"], amount=o["amount"])
                elif k == "Alter":
                    e["n"], e["d"] = o["n"], o["d"]
                    desc[p]["amount"] = o["amount"]
                elif k == "Reform":
                    e["unit"] = o["unit"]
                    desc[p]["form"] = o["unit"]
                elif k == "Mix":
                    e["n"] = mixing = o["n"]
                elif k == "Arrange":
                    e["chans"] = order = o["chans"]
                else:
                    n += 1
                    e["tables"] = instrument(d, desc, order, mixing, psf, n)
                ev.append(e)
        except Exception as ex:
            import traceback
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-900:]})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    last = [e for e in r if e["ev"] == "Observe"]
    if not last:
        return [r[0], {"ev": "Crash", "error": ""}]
    # the same once more, with one number doubled
    import copy
    e = copy.deepcopy(last[-1])
    for t in e["tables"]:
        for c in t["cols"]:
            for v in c["vals"]:
                if v[0] > 0:
                    v[1] += 1
                    return r + [e]
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("DialectMC", expect_actions=["MDescribe", "MReword", "MReform", "MArrange", "MAlter", "MObserve"])
    cases = ctx.pick("dialect", lambda: ctx.gen("DialectGen", cfg="DialectGenThorough.cfg" if ctx.thorough else "DialectGen.cfg",
                                                simulate=ctx.size(64, 800), depth=40))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=300)
    ctx.samples = recs[:2]
    bad = ctx.validate("DialectTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("DialectTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "dialect")
