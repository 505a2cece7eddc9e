"""C05, C06: targets observed by the real code behind the foregrounds of
SkyGen's payloads, checked against Sky.tla."""
import os
import shutil
import tempfile

import exo
import numpy as np

import lib
import payload as P
from subsys import optics as O

exo.quiet()
EDGE, NZ, WR, Z, q = O.EDGE, O.NZ, O.WR, O.Z, O.q
MARGIN = 1.12


def frg_node(f, d, tag):
    if f["kind"] == "zodi":
        return P.T("foreground", "zodiacal", None, P.T("zodiacalMap", "False"), P.T("zodiacFactor", repr(O.val(f["rad"][0]))))
    wl, idx = O.file_cols(f)
    p = P.write_table(os.path.join(d, "%s_%s.csv" % (tag, f["name"].replace(" ", "_"))),
                      {"Wavelength": wl, "Radiance": [1e-3 * O.val(f["rad"][i]) for i in idx],
                       "Transmission": [O.val(f["trans"][i]) for i in idx]},
                      {"Wavelength": "micron", "Radiance": "W m-2 um-1 sr-1"})
    return P.T("foreground", f["name"], None, P.T("datafile", p))


def write(case, d, frgs, tag):
    com = P.common(d, WR, kids=[frg_node(f, d, "%s_%d" % (tag, i)) for i, f in enumerate(frgs)])
    opt = P.T("optics", " ", None, P.T("Atel", "0.5", "m**2"))
    if case["force"] != "absent":
        opt.add(P.T("ForceChannelWlEdge", case["force"]))
    psf = P.write_psf(os.path.join(d, "psf.fits"))
    chans = []
    for j, c in enumerate(case["chans"]):
        z = c["zone"]
        lo, hi = EDGE[z - 1], EDGE[z]
        els = [P.T("opticalElement", "band", None, P.T("type", "filter"), P.T("transmission", repr(O.val(c["t"]))),
                   P.T("wl_min", repr(lo * MARGIN), "micron"), P.T("wl_max", repr(hi / MARGIN), "micron"))]
        if c["slit"]:
            els.insert(0, P.T("opticalElement", "slit", None, P.T("type", "slit"),
                              P.T("width", repr((c["slit"] + 0.4) * O.PIX * 1e-3), "mm")))
        fx, fy = O.F[j % 2]
        det = P.detector(O.PIX, P.T("qe", "0.5", ""))
        if c["kind"] == "phot":
            chans.append(P.photometer("Ch%d" % (9 - j), lo, hi, fx, fy, psf, 3, optics=els, det=det))
        else:
            chans.append(P.spectrometer(d, "Ch%d" % (9 - j), lo, hi, fx, fy, psf, 9.0, O.PIX, 140, j % 2 == 1, els, det))
    return P.root(d, com, opt, chans, "payload_%s.xml" % tag)


def one(vals):
    """the single exponent all of them agree on"""
    s = set(vals)
    return s.pop() if len(s) == 1 else -9999


def ratio(got, base, mask, tol=0.003):
    got, base = np.asarray(got, float), np.asarray(base, float)
    return [lib.log2i(got[i], base[i], tol, zero=Z) for i in np.where(mask)[0]]


def columns(frgs, found):
    """which column is of which foreground: those of the same name are told apart by their order, nearest first"""
    left, out = list(found), []
    for f in reversed(frgs):
        same = [k for k in left if k == f["name"]] or [k for k in left if k.startswith(f["name"])]
        if not same:
            raise KeyError("no column of foreground %r" % f["name"])
        # the nearest of those of the same name comes first in the table
        many = sum(g["name"] == f["name"] for g in frgs) > 1
        k = next(x for x in left if x.startswith(f["name"])) if many else same[0]
        left.remove(k)
        out.append((f, k))
    return out, left


def signal_exps(ch, c, f, sig, mx):
    fx, fy = [float(ch.description[k]["value"]) for k in ("Fnum_x", "Fnum_y")]
    om, area = P.omega(fx, fy), (O.PIX * 1e-6) ** 2
    wl = np.logspace(0, np.log10(8.0), WR)
    td = ch.built_instr["transmission_data"]
    tr = np.interp(wl, np.asarray(td["wl_grid"]["value"], float), np.asarray(td["data"]["value"], float), left=0, right=0)
    spec = np.full(WR, 1e-3) if f["kind"] == "custom" else 3.5e-14 * P.planck_si(wl, 5500.) + 3.58e-8 * P.planck_si(wl, 270.)
    if not c["slit"]:
        base = np.trapz(spec * tr * 0.5 * wl * 1e-6 / P.HC, wl) * om * area
        win = np.asarray(ch.built_instr["window_size_px"], float).ravel()
        m = np.ones(len(win), bool)
        return one(ratio(sig, base * win, m)), one(ratio(mx, base * np.ones(len(win)), m))
    res = set()
    cands = O.kernel_candidates(ch, spec * tr, wl, np.full(WR, 0.5), om, area)
    for k, (bs, bm) in cands.items():
        if k.startswith("slit:%d:" % c["slit"]):
            # bins wholly inside the band: the light near its edges is interpolated between samples
            m = bs > 0.3 * bs.max()
            res.add((one(ratio(sig, bs, m, 0.05)), one(ratio(mx, bm, m, 0.08))))
    ok = [r for r in res if -9999 not in r]
    return ok[0] if ok else sorted(res)[-1]


def record(case):
    d = tempfile.mkdtemp(prefix="sky", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    try:
        try:
            chans = P.build(P.load(write(case, d, [], "base")))
            pays = [P.load(write(case, d, o, "p%d" % i)) for i, o in enumerate(case["obs"])]
            new = lambda: P.targets([P.star()])[0]
            base = P.observe(new(), P.load(os.path.join(d, "payload_base.xml")), chans).table.copy()
            t = new()
            names = list(chans)
            for i, o in enumerate(case["obs"]):
                if case["fresh"]:
                    t = new()
                zones = [c["zone"] for c in case["chans"]]
                ev.append({"ev": "Observe", "frgs": [dict(f, rad=f["rad"]) for f in o], "zones": zones})
                tab = P.observe(t, pays[i], chans).table
                rows = [np.array([str(x) == n for x in tab["chName"]]) for n in names]
                found = [k[:-7] for k in tab.colnames if k.endswith("_signal") and k != "instrument_signal"]
                of, rest = columns(o, found)
                for f, col in of:
                    s, m = [], []
                    for n, c, r in zip(names, case["chans"], rows):
                        a, b = signal_exps(chans[n], c, f, q(tab[col + "_signal"], "ct/s")[r],
                                           q(tab[col + "_MaxSignal_inPixel"], "ct/s")[r])
                        s.append(a), m.append(b)
                    ev.append({"ev": "Frg", "name": f["name"], "sig": s, "max": m})
                called = dict({k: k for k in rest}, **{k: f["name"] for f, k in of})
                seen = {"ev": "Seen",
                        "columns": [called[k] for k in found],
                        "maxcolumns": [called.get(k[:-18], k[:-18]) for k in tab.colnames if k.endswith("_MaxSignal_inPixel")
                                       and not k.startswith(("instrument_", "star_"))], "reported": []}
                wc = q(tab["Wavelength"], "um")
                lo, hi = q(tab["LeftBinEdge"], "um"), q(tab["RightBinEdge"], "um")
                for key, col in [("star", "starSignal"), ("aperture", "star_signal_inAperture"), ("pixel", "star_MaxSignal_inPixel")]:
                    seen[key] = []
                    for r, z in zip(rows, zones):
                        b = np.asarray(q(base[col], "ct/s"), float)
                        m = r & (b > 1e-3 * b[r].max())
                        seen[key].append(one(ratio(q(tab[col], "ct/s"), b, m, 0.02)))
                if "foreground_transmission" in tab.colnames:
                    ft = np.asarray(tab["foreground_transmission"], float)
                    for r, z in zip(rows, zones):
                        m = r & (wc > EDGE[z - 1] * 1.05) & (wc < EDGE[z] / 1.05)
                        seen["reported"].append(one(ratio(ft, np.ones(len(ft)), m)))
                ev.append(seen)
        except Exception as ex:
            import traceback
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-800:]})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    for e in r:
        if e["ev"] == "Seen":
            e["star"][0] += 1
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("SkyMC", expect_actions=["MObserve", "PassForeground"])
    cases = ctx.pick("sky", lambda: ctx.gen("SkyGen", cfg="SkyGenThorough.cfg" if ctx.thorough else "SkyGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=240)
    ctx.samples = recs[:2]
    bad = ctx.validate("SkyTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("SkyTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "sky")
