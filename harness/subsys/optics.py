"""C01-C04: channels built by the real code from payloads of OpticalPathGen,
checked against OpticalPath.tla."""
import os
import shutil
import tempfile

import exo
import numpy as np
from astropy import units as u

import lib
import payload as P

exo.quiet()
EDGE = [1.0, 2.0, 4.0, 8.0]
NZ = 3
WR = 97
Z = 99
PIX = 3.0
F = [(2.0, 2.5), (2.5, 2.0)]


def val(x):
    return 0.0 if x == Z else 2.0 ** -x


def file_cols(e):
    """piecewise constant columns over the covered zones"""
    wl, idx = [], []
    for z in range(e["lo"], e["hi"] + 1):
        a, b = EDGE[z - 1], EDGE[z]
        wl += [a * 1.0005 if z > 1 else a * 0.999, b * 0.9995 if z < NZ else b * 1.001]
        idx += [z - 1, z - 1]
    return wl, idx


def slit_width(w, frac, pix):
    """of w pixels and a fraction of one, written with few digits"""
    return repr(round((10 * w + frac) * int(round(pix * 10)) * 1e-5, 6))


def element(e, d, tag, i, pix=PIX):
    n = P.T("opticalElement", e["name"], None, P.T("type", e["type"]))
    if e["type"] == "slit":
        n.add(P.T("width", slit_width(e["w"], e.get("frac", 4), pix), "mm"))
    if e["temp"]:
        n.add(P.T("temperature", e["temp"], None if e["nounit"] == 0 else "K"))
    if e["sa"]:
        n.add(P.T("solid_angle", repr(e["sa"] % 10 * 0.1), None if e["nounit"] == 1 else "sr"))
    if e["use"] and e["src"] != "file":
        n.add(P.T("use", {"T": "transmission", "R": "reflectivity"}[e["use"]]))
    if e["src"] == "file":
        wl, idx = file_cols(e)
        wn = ["Wavelength", "wavelength", "lam"][e["wlcol"]]
        cols = {wn: wl}
        if e["hasR"]:
            cols["Reflectivity"] = [val(e["R"][i]) for i in idx]
        if e["hasT"]:
            cols["Transmission"] = [val(e["T"][i]) for i in idx]
        cols["emissivity" if e["lower"] else "Emissivity"] = [val(e["em"][i]) for i in idx]
        f = P.write_table(os.path.join(d, "%s_%d.csv" % (tag, i)), cols, {wn: "micron"})
        n.add(P.T("datafile", f))
        if e["wlcol"] == 2:
            n.add(P.T("wl_col_name", wn))
        if e["use"]:
            n.add(P.T("use", {"T": "Transmission", "R": "Reflectivity"}[e["use"]]))
    else:
        if e["hasT"]:
            n.add(P.T("transmission", repr(val(e["T"][0]))))
        if e["hasR"]:
            n.add(P.T("reflectivity", repr(val(e["R"][0]))))
        if e["em"][0] != -1:
            n.add(P.T("emissivity", repr(val(e["em"][0]))))
        if e["src"] == "direct" and e["lo"] > 1:
            n.add(P.T("wl_min", repr(EDGE[e["lo"] - 1]), "micron"))
        if e["src"] == "direct" and e["hi"] < NZ:
            n.add(P.T("wl_max", repr(EDGE[e["hi"]] * 1e3), "nm"))
    # bounds of a transmission that is not given as one number bound nothing
    if e.get("idle", 0) % 2:
        n.add(P.T("wl_min", repr(EDGE[1]), "micron"))
    if e.get("idle", 0) // 2:
        n.add(P.T("wl_max", repr(EDGE[2]), "micron"))
    return n


def write_case(case, d):
    psf = P.write_psf(os.path.join(d, "psf.fits"))
    opt = P.T("optics", " ", None, P.T("Atel", "0.5", "m**2"))
    if case["force"] != "absent":
        opt.add(P.T("ForceChannelWlEdge", case["force"]))
    pix = case.get("pix", 30) / 10
    opt.add(*[element(e, d, "common", i, pix) for i, e in enumerate(case["common"])])
    chans = []
    for j, ch in enumerate(case["channels"]):
        name = "Ch%d" % (len(case["channels"]) - j)
        fx, fy = F[j % 2]
        els = [element(e, d, name, i, pix) for i, e in enumerate(ch["els"])]
        qe = None
        if ch["qe"]:
            wn = ["Wavelength", "wavelength"][ch["qe"] - 1]
            f = P.write_table(os.path.join(d, "qe_%s.csv" % name),
                              {wn: [0.9, 1.5, 5.0, 8.5], "Other": [0.1] * 4, name: [0.3, 0.5, 0.9, 0.6]}, {wn: "micron"})
            qe = P.T("qe", " ", "", P.T("datafile", f))
        det = P.detector(pix, qe)
        lo, hi = EDGE[ch["lo"] - 1], EDGE[ch["hi"]]
        if ch["kind"] == "phot":
            chans.append(P.photometer(name, lo, hi, fx, None if ch["flip"] else fy, psf, ch["win"], optics=els, det=det))
        else:
            ex = [P.T("window_spatial_scale", ch["win"])] if ch["win"] < 4 else [P.T("window_spatial_pixel", ch["win"])]
            chans.append(P.spectrometer(d, name, lo, hi, fx, fy, psf, 5.0, pix, ch.get("npix", 140), bool(ch["flip"]), els, det, ex, bend=ch.get("bend", 0) / 10))
    return P.root(d, P.common(d, WR), opt, chans)


def zones_of(wl, vals, base=None):
    """exponent of each zone, from every sample inside it"""
    out = []
    for z in range(NZ):
        i = np.where((wl > EDGE[z] * 1.02) & (wl < EDGE[z + 1] * 0.98))[0]
        if base is None:
            v = [lib.log2i(vals[j], 1.0, 0.001, zero=Z) for j in i]
        else:
            v = [lib.log2i(vals[j], base[j], 0.01, zero=Z) for j in i]
        out.append(v[0] if len(set(v)) == 1 else -9999)
    return out


def q(x, unit):
    return u.Quantity(x, unit).value if not hasattr(x, "unit") or x.unit is None else u.Quantity(x).to(unit).value


def pixel_area(ch):
    return u.Quantity(ch.description["detector"]["delta_pix"]["value"]).to("m").value ** 2


def kernel_candidates(ch, rad, wl, qe, om, area):
    """per pixel light and the dispersed signals for n = 1..6"""
    b = ch.built_instr
    wp, dw = q(b["wl_pix_center"], "um"), q(b["pixel_bandwidth"], "um")
    o = np.argsort(wl)
    f = lambda y: np.interp(wp, wl[o], np.asarray(y)[o], left=0, right=0)
    px = f(rad) * om * area * f(qe) * wp * 1e-6 / P.HC * dw
    lo, hi = q(ch.table["LeftBinEdge"], "um"), q(ch.table["RightBinEdge"], "um")
    # a pixel exactly on a border is counted in one of the two bins, the same way at every border
    near = lambda x: np.min(np.abs(wp - x))
    clear = np.array([not any(5e-10 <= near(x) < 1e-6 for x in (a, c)) for a, c in zip(lo, hi)], float)
    sp = np.asarray(b["window_spatial_width"], float)
    res = {}
    order = np.argsort(wp)
    y = px[order]
    for n in range(1, 7):
        # for an even number of pixels the window may lean to either side
        for left in {n // 2, n - 1 - n // 2}:
            s = np.zeros(len(px))
            pad = np.concatenate([np.zeros(left), y, np.zeros(n - 1 - left)])
            s[order] = np.array([pad[i:i + n].sum() for i in range(len(y))])
            for side in (5e-10, -5e-10):
                idx = [np.where((wp > a + side) & (wp <= c + side))[0] for a, c in zip(lo, hi)]
                res["slit:%d:%d:%g" % (n, left, side)] = (np.array([s[i].sum() for i in idx]) * sp * clear,
                                                          np.array([s[i].max() if len(i) else 0 for i in idx]) * clear)
    return res


def closest(cands, got, tol):
    got = np.asarray(got, float)
    best, bestd = "none", tol
    for k, v in cands.items():
        v = np.asarray(v, float)
        if not np.any(v):
            continue
        m = np.abs(v) > 1e-3 * np.abs(v).max()
        dev = np.max(np.abs(got[m] / v[m] - 1))
        if dev < bestd:
            best, bestd = ":".join(k.split(":")[:2]), dev
    return best


def qe_on(ch, wl):
    d = ch.description["detector"]["qe"]
    if "data" in d:
        t = d["data"]
        wn = "Wavelength" if "Wavelength" in t.colnames else "wavelength"
        return np.interp(wl, np.asarray(q(t[wn], "um"), float), np.asarray(t[ch.name], float), left=0, right=0)
    return np.full(len(wl), float(d["value"]))


def classify(ch, rad, wl, fx, fy, sig, mx):
    area = pixel_area(ch)
    om = P.omega(fx, fy)
    qe = qe_on(ch, wl)
    if not np.any(rad):
        return ("zero", "zero") if not np.any(sig) and not np.any(mx) else ("light", "light")
    if not np.any(sig) and not np.any(mx):
        return "zero", "zero"
    base = np.trapz(rad * qe * wl * 1e-6 / P.HC, wl) * area
    win = np.asarray(ch.built_instr["window_size_px"], float).ravel()
    c = {"pi": np.pi, "pi-omega": np.pi - om, "omega": om, "sa:1": 0.1, "sa:5": 0.5, "sa:9": 0.9}
    a = closest({k: base * v * win for k, v in c.items()}, sig, 0.004)
    b = closest({k: base * v * np.ones(len(win)) for k, v in c.items()}, mx, 0.004)
    if "wl_pix_center" in ch.built_instr and (a == "none" or b == "none"):
        kc = kernel_candidates(ch, rad, wl, qe, om, area)
        if not np.any(kc["slit:1:0:5e-10"][0]) and not np.any(sig):
            return "zero", "zero"
        a = closest({k: v[0] for k, v in kc.items()}, sig, 0.01) if a == "none" else a
        b = closest({k: v[1] for k, v in kc.items()}, mx, 0.01) if b == "none" else b
    return a, b


def sums(parts, total, rows):
    out = []
    for i in rows:
        p = [float(x[i]) for x in parts]
        t = float(total[i])
        s = max([abs(t)] + [abs(x) for x in p] + [sum(abs(x) for x in p)]) / 1e9
        if not np.isfinite(s):
            out.append({"parts": [-1 for _ in p], "total": 7 * (len(p) + 9)})
            continue
        s = s or 1.0
        out.append({"parts": [int(round(x / s)) for x in p], "total": int(round(t / s))})
    return out


def observe_channel(case, j, ch):
    """events of one built channel"""
    from collections import OrderedDict
    from types import SimpleNamespace
    from exorad.models.signal import Radiance
    cc = case["channels"][j]
    path = case["common"] + cc["els"]
    ev = [{"ev": "Channel", "path": path, "n": len(path), "chan": {"lo": cc["lo"], "hi": cc["hi"], "force": case["force"]}}]
    if not path:
        ev[0]["path"] = []
    op = ch.built_instr["optical_path"]
    tt, rt = op["transmission_table"], op["radiance_table"]
    wl = q(tt["Wavelength"], "um")
    # the columns of the elements, in order; a name that is taken is completed
    cols = [c for c in tt.colnames if c not in ("Wavelength", "total") and not c.startswith("noElement")]
    for i, e in enumerate(path):
        ev.append({"ev": "Pass", "name": e["name"],
                   "got": zones_of(wl, np.asarray(tt[cols[i]], float)) if i < len(cols) and cols[i].startswith(e["name"]) else []})
    names = [c for c in rt.colnames if c != "Wavelength"]
    temps = {c: e["temp"] for c, e in zip(cols, path)}
    rads = {n: np.asarray(q(rt[n], "W m-2 um-1 sr-1"), float) for n in names}
    rad = [zones_of(wl, rads[n], P.planck_si(wl, temps.get(n) or 1.0)) for n in names]
    td = ch.built_instr["transmission_data"]
    tw, tv = np.asarray(td["wl_grid"]["value"], float), np.asarray(td["data"]["value"], float)
    total = zones_of(wl, np.asarray(tt["total"], float))
    bins = []
    for w, t in zip(q(ch.table["Wavelength"], "um"), np.asarray(ch.table["TR"], float)):
        z = sum(w >= x for x in EDGE)
        if min(abs(w / x - 1) for x in EDGE) > 0.03:
            bins.append([int(z), lib.log2i(t, 1.0, 0.001, zero=Z)])
    ev.append({"ev": "Built", "elements": len(cols), "emitters": [cols.index(n) + 1 if n in cols else 0 for n in names], "rad": rad, "total": total, "data": zones_of(tw, tv), "bins": bins})
    d = ch.description
    fx = float(d["Fnum_x"]["value"])
    fy = float(d["Fnum_y"]["value"]) if "Fnum_y" in d else fx
    st, mt = op["signal_table"], op["max_signal_per_pixel"]
    got, gotm, parts, mparts = [], [], [], []
    for n, r in zip(names, rad):
        s = np.asarray(q(st[n + " signal"], "ct/s"), float)
        m = np.asarray(q(mt[n], "ct/s"), float)
        a, b = classify(ch, rads[n], wl, fx, fy, s, m)
        if r == [Z] * NZ:    # dark but for samples on a zone's border
            a = b = "zero"
        got.append(a), gotm.append(b), parts.append(s), mparts.append(m)
    ev.append({"ev": "Class", "got": got, "gotmax": gotm})
    g = np.logspace(0, np.log10(8.0), WR)
    fr = np.ones(WR) * 3e-3
    tgt = SimpleNamespace(foreground=OrderedDict(sky=Radiance(g * u.um, fr * u.Unit("W m-2 um-1 sr-1"))))
    with exo.hush():
        o = ch.propagate_diffuse_foreground(tgt)
    seen = fr * np.interp(g, tw, tv, left=0, right=0)
    inside = (g > EDGE[cc["lo"] - 1] * 1.02) & (g < EDGE[cc["hi"]] * 0.98)
    for x in EDGE:
        inside &= abs(g / x - 1) > 0.02
    a, b = classify(ch, seen, g, fx, fy,
                    np.asarray(q(o["sky_signal"], "ct/s"), float), np.asarray(q(o["sky_MaxSignal_inPixel"], "ct/s"), float))
    if not np.any(seen[inside]):
        a = b = "zero"
    ev.append({"ev": "Diffuse", "got": a if a == b else a + "/" + b})
    n = len(ch.table)
    rows = sorted({0, n // 2, n - 1, n // 3})
    ev.append({"ev": "Sums", "n": len(names), "rows": sums(parts, q(ch.table["instrument_signal"], "ct/s"), rows),
               "maxrows": sums(mparts, q(ch.table["instrument_MaxSignal_inPixel"], "ct/s"), rows)})
    return ev


def record(case):
    d = tempfile.mkdtemp(prefix="opt", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    try:
        try:
            chans = P.build(P.load(write_case(case, d)))
        except Exception as ex:
            return ev + [{"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex)}]
        for j in range(len(case["channels"])):
            ev += observe_channel(case, j, chans["Ch%d" % (len(case["channels"]) - j)])
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read_targets(path):
    import h5py
    from astropy.io.misc.hdf5 import read_table_hdf5
    out = {}
    with h5py.File(path, "r") as f:
        for t in f["targets"]:
            g = f["targets"][t]["table"]
            out[t] = read_table_hdf5(g, path="table" if "table" in g else list(g)[0])
    return out


def record_full(case):
    """the same payload observed with and without full contributions"""
    from exorad.exorad import standard_pipeline
    d = tempfile.mkdtemp(prefix="optf", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    try:
        try:
            xml = write_case(case, d)
            tl = os.path.join(d, "targets.csv")
            with open(tl, "w") as f:
                f.write("star name,star M [M_sun],star Teff [K],star R [R_sun],star D [pc],star L [L_sun]\n"
                        "alpha,1.0,5500,1.0,30,1.0\n")
            tabs, chans = {}, P.build(P.load(xml))
            for full in (False, True):
                o = os.path.join(d, "out%d" % full, "out.h5")
                with exo.hush():
                    standard_pipeline(options=xml, target_list=tl, output=o, full_contrib=full)
                tabs[full] = read_targets(o)["alpha"]
        except Exception as ex:
            return ev + [{"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex)}]
        a, b = tabs[False], tabs[True]
        rows, i0 = [], 0
        allnames = []
        for ch in chans.values():
            allnames += [n[:-7] for n in ch.built_instr["optical_path"]["signal_table"].colnames]
        cn = [c[:-7] for c in b.colnames if c.endswith(" signal")]
        for ch in chans.values():
            st = ch.built_instr["optical_path"]["signal_table"]
            on = [n[:-7] for n in st.colnames]
            for i in sorted({0, len(ch.table) // 2, len(ch.table) - 1}):
                k = i0 + i
                own = [float(q(st[n + " signal"], "ct/s")[i]) for n in on]
                cols = [float(q(b[n + " signal"], "ct/s")[k]) for n in cn]
                plain = float(q(a["instrument_signal"], "ct/s")[k])
                s = max([abs(plain), sum(map(abs, own)), sum(map(abs, cols))]) / 1e9 or 1.0
                same = ["instrument_MaxSignal_inPixel", "MaxSignal_inPixel", "frameTime", "saturation_time", "total_noise"]
                va, vb = [[float(getattr(t[c][k], "value", t[c][k])) for c in same] for t in (a, b)]
                sc = [abs(x) / 1e8 if np.isfinite(x) and x else 1.0 for x in va]
                enc = lambda v: [int(round(x / y)) if np.isfinite(x) and abs(x / y) < 2e9 else -7 for x, y in zip(v, sc)]
                rows.append({"ownnames": on, "own": [int(round(x / s)) for x in own], "colnames": cn,
                             "cols": [int(round(x / s)) for x in cols], "plain": int(round(plain / s)),
                             "a": enc(va), "b": enc(vb)})
            i0 += len(ch.table)
        ev.append({"ev": "Full", "rows": rows, "hastotal": int("instrument_signal" in b.colnames),
                   "len": [len(a), len(b)]})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    for e in r:
        if e["ev"] == "Built":
            e["total"][0] += 1
            return r
    return r


def check(ctx):
    ctx.mc("OpticalPathMC", expect_actions=["PassElement"])
    cases = ctx.pick("optics", lambda: ctx.gen("OpticalPathGen", cfg="OpticalPathGen.cfg" if not ctx.thorough else "OpticalPathGenThorough.cfg"))
    if ctx.replay is not None and not cases:
        return check_full(ctx, cases)
    recs = ctx.run(cases, record, limit=240)
    ctx.samples = recs[:2]
    bad = ctx.validate("OpticalPathTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("OpticalPathTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "optics")
    check_full(ctx, cases)


def check_full(ctx, cases):
    if ctx.prop != "C04":
        return
    pick = lambda: [c for c in cases if c["common"] or c["channels"][0]["els"]][:ctx.size(16, 120)]
    cases = ctx.pick("optics_full", pick)
    if cases:
        recs = ctx.run(cases, record_full, limit=240)
        ctx.samples.append(recs[0][:2])
        ctx.report(ctx.validate("OpticalPathTrace", recs, parallel=2), cases, recs, "optics_full")
