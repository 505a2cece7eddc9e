"""C09-C12 (and the noise step of C15): the real noise estimation on target
tables of NoiseGen, checked against Noise.tla."""
import os
import random
import shutil
import tempfile

import exo
import numpy as np
from astropy import units as u
from astropy.table import QTable

import payload as P

exo.quiet()
NAN, INF = -1, -2


def custom_node(cu, d, tag=""):
    if cu["kind"] == "flat":
        return P.T("customNoise", str(1000 * cu["p"]), None, P.T("name", cu["name"]))
    p = os.path.join(d, "noise_%s%s.csv" % (cu["name"].replace(" ", "_"), tag))
    if not os.path.exists(p):
        wl = [0.0, 12.0, 50.0]
        P.write_table(p, {"Wavelength": wl, cu["name"]: [1e-3 * cu["p"] * w for w in wl]},
                      {"Wavelength": "micron", cu["name"]: "hr(1/2)"})
    return P.T("customNoise", "custom %s" % cu["name"], None, P.T("datafile", p))


def write(case, d):
    com = P.common(d, 97, kids=[custom_node(cu, d) for cu in case["common"]])
    chans = []
    for j, c in enumerate(case["chans"]):
        extra = []
        if c["ft"]:
            extra.append(P.T("frame_time", str(c["ft"]), "s") if c["ft"] % 2 else P.T("frame_time", str(c["ft"] * 1000), "ms"))
        if c["m"]:
            extra.append(P.T("multiaccumM", str(c["m"]), ""))
        det = P.detector(18, well=c["well"], dark=c["dark"], read=c["rn"], fwell=c["f10"] / 10.0,
                         ndr=repr(c["freq10"] / 10.0), extra=extra)
        ex = [custom_node(cu, d, "_%d" % j) for cu in c["customs"]]
        if c["x10"] >= 0:
            ex.append(P.T("NoiseX", repr(c["x10"] / 10.0), ""))
        chans.append(P.photometer("Ch%d" % (9 - j), 1 + j, 2 + j, det=det, extra=ex))
    return P.root(d, com, P.T("optics", " ", None, P.T("Atel", "0.5", "m**2")), chans)


def column(part):
    """signal and maximum columns of a part"""
    if part == "star":
        return "star_signal_inAperture", "star_MaxSignal_inPixel"
    if part.startswith("element "):
        return part[8:] + " signal", "instrument_MaxSignal_inPixel"
    return part + "_signal", part + "_MaxSignal_inPixel"


def table(case, names):
    rows, parts = case["rows"], case["parts"]
    cols = {"chName": [names[r["ch"] - 1] for r in rows],
            "Wavelength": [float(r["wl"]) for r in rows] * u.um,
            "LeftBinEdge": [r["wl"] - 0.5 for r in rows] * u.um, "RightBinEdge": [r["wl"] + 0.5 for r in rows] * u.um,
            "WindowSize": [float(r["win"]) for r in rows],
            "starFlux": [7.0 for r in rows] * u.Unit("W/m2/um"), "starSignal": [900.0 for r in rows] * u.ct / u.s,
            "TR": [0.5 for r in rows], "foreground_transmission": [0.5 for r in rows]}
    for k, p in enumerate(parts):
        s, m = column(p)
        cols[s] = [float(r["sig"][k]) for r in rows] * u.ct / u.s
        m0 = [float(r["max"][k]) for r in rows] * u.ct / u.s
        cols[m] = cols[m] + m0 if m in cols else m0
    keys = list(cols)
    if case["shuffle"]:
        random.Random(case["id"]).shuffle(keys)
    t = QTable()
    for k in keys:
        t[k] = cols[k]
    return t


def micro(x, unit):
    x = u.Quantity(x).to_value(unit)
    return INF if np.isinf(x) else NAN if x != x else int(min(round(x * 1e6), 2000000000))


def milli(x, scale=1.0):
    """3600 x^2 scale in thousandths"""
    if x != x:
        return NAN
    v = 3600.0 * float(x) ** 2 * scale * 1e3
    return int(round(v)) if v < 2e9 else 2000000000


def observe(case, ev):
    from exorad.models.instruments import Photometer
    from exorad.tasks import EstimateNoise
    d = tempfile.mkdtemp(prefix="noi", dir=os.environ.get("VERIF_HOME"))
    try:
        pay = P.load(write(case, d))
        names = ["Ch%d" % (9 - j) for j in range(len(case["chans"]))]
        one = len(names) == 1
        chans = {n: Photometer(n, pay["channel"] if one else pay["channel"][n], pay) for n in names}
        target = P.targets([P.star()])[0]
        target.table = table(case, names)
        for k in range(case["again"]):
            ev.append({"ev": "Light", "parts": case["parts"], "rows": case["rows"], "chans": case["chans"],
                       "common": case["common"]} if k == 0 else None)
            before = None if k == 0 else target.table.copy()
            with exo.hush():
                target = EstimateNoise()(target=target, channels=chans)
            t = target.table
            if k:
                dif = differs(before, t)
                ev[-1] = {"ev": "Again", "same": int(not dif), "differs": dif}
            maxs = u.Quantity(t["MaxSignal_inPixel"]).to_value("ct/s")
            ev.append({"ev": "Summed", "maxsum": [int(x) if x == int(x) else -1 for x in maxs]})
            at = np.array([str(x) for x in t["chName"]])
            for j, n in enumerate(names):
                ev.append({"ev": "Est", "c": j + 1, "rows": [row(case, t, i, j) for i in np.where(at == n)[0]]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def differs(a, b):
    if sorted(a.colnames) != sorted(b.colnames):
        return "columns %s" % sorted(set(a.colnames) ^ set(b.colnames))
    for k in a.colnames:
        x, y = a[k], b[k]
        same = np.all(np.asarray(x) == np.asarray(y)) if k == "chName" else np.array_equal(
            np.asarray(u.Quantity(x).value, float), np.asarray(u.Quantity(y).to_value(u.Quantity(x).unit), float), equal_nan=True)
        if not same:
            return "column " + k
    return ""


ONE = u.ct / u.s * u.hr**0.5


def row(case, t, i, j):
    star = case["rows"][i]["sig"][-1]
    cus = case["common"] + case["chans"][j]["customs"]
    others = {x["name"] for c in case["chans"] for x in c["customs"]} - {x["name"] for x in cus}
    val = lambda col: u.Quantity(t[col][i]).to_value(ONE)
    return {"sat": micro(t["saturation_time"][i], "s"), "frame": micro(t["frameTime"][i], "s"),
            "photon": [milli(val(column(p)[0] + "_noise")) for p in case["parts"]],
            "dark": milli(val("darkcurrent_noise")), "read": milli(val("read_noise")),
            "total": milli(u.Quantity(t["total_noise"][i]).to_value(u.hr**0.5), star**2),
            # the column of noises of the same name is not decided
            "custom": [-2 if [x["name"] for x in cus].count(cu["name"]) > 1 else kppm(t[cu["name"] + "_noise"][i]) for cu in cus],
            "foreign": sorted(n for n in others if n + "_noise" in t.colnames and kppm(t[n + "_noise"][i]) not in (0, -1))}


def kppm(x):
    v = u.Quantity(x).to_value(u.hr**0.5) * 1e3
    return -1 if v != v else int(round(v)) if abs(v - round(v)) < 1e-6 else -3


def gain(case, ev):
    from exorad.models.noise import multiaccum
    det = {"freqNDR": {"value": case["dhz"] / 10.0 * {"Hz": u.Hz, "kHz": u.Hz, "1/min": u.Hz}[case["funit"]]}}
    det["freqNDR"]["value"] = det["freqNDR"]["value"].to(u.Unit(case["funit"]))
    if case["m"]:
        det["multiaccumM"] = {"value": case["m"] * u.dimensionless_unscaled}
    read, shot = multiaccum({"value": "a", "detector": det}, (case["ms"] * u.ms).to(u.Unit(case["tunit"])))
    f = lambda x: int(round(min(u.Quantity(x).to_value(u.dimensionless_unscaled), 2000) * 1e6))
    ev.append({"ev": "Gain", "ms": case["ms"], "dhz": case["dhz"], "m": case["m"], "shot": f(shot), "read": f(read)})


def record(case):
    ev = [{"ev": "Reset"}]
    try:
        (gain if case["kind"] == "gain" else observe)(case, ev)
    except Exception as ex:
        import traceback
        ev = [e for e in ev if e]
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-800:]})
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Est":
            e["rows"][0]["dark"] += 1000
            e["rows"][0]["read"] += 1000
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("NoiseMC", expect_actions=["MSum", "MEst", "MAgain"])
    cases = ctx.pick("noise", lambda: ctx.gen("NoiseGen", cfg="NoiseGenThorough.cfg" if ctx.thorough else "NoiseGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record)
    ctx.samples = recs[:2]
    bad = ctx.validate("NoiseTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("NoiseTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "noise")
