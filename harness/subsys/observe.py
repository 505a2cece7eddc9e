"""C13-C15: histories of observations of the real code against Observation.tla.
The reference is the same target observed alone in a fresh process."""
import logging
import os
import pickle
import shutil
import tempfile
import traceback
from collections import OrderedDict

import exo
import h5py
import numpy as np
from astropy import units as u
from astropy.table import Table

import payload as P

exo.quiet()
ROW = {1: P.star("T", 1.0, 5500, 1.0, 20, 1.0), 2: P.star("T", 0.8, 4000, 0.7, 12, 0.2),
       3: P.star("T", 1.2, 6100, 1.3, 90, 2.0), 4: P.star("T", 0.3, 3100, 0.3, 6, 0.01)}
COORD = {1: (10.0, 20.0), 2: ("", ""), 3: (200.0, -60.0), 4: (95.0, 1.5)}
COLUMNS = P.STARS + ",star ra [deg],star dec [deg],planet name,star magk,planet M [M_jup]"
PLACE = {"M": 1, "Teff": 2, "R": 3, "D": 4}
TASKS = {"prepare": "PrepareTarget", "sky": "EstimateForegrounds", "forelight": "PropagateForegroundLight",
         "source": "LoadSource", "starlight": "PropagateTargetLight", "noise": "EstimateNoise"}


def forked(fn, *args):
    """fn(*args) in a child process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Exception:
                out = ("error", traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("child ended without a result")
    kind, val = pickle.loads(data)
    if kind == "error":
        raise RuntimeError(val)
    return val


# -- payloads and targets ---------------------------------------------------------------
def write_payload(case, i, d):
    p = case["pays"][i - 1]
    d = os.path.join(d, "p%d" % i)
    os.makedirs(d)
    kids = []
    for n in p["frgs"]:
        if n == "zodiacal":
            kids.append(P.T("foreground", n, None, P.T("zodiacalMap", "True" if p["zmap"] else "False"), P.T("zodiacFactor", "%.1f" % (1.0 + 0.5 * i))))
        else:
            k = {"dust": 0, "glow": 1}[n]
            f = P.write_table(os.path.join(d, n + ".csv"),
                              {"Wavelength": [1.0, 3.0, 5.0, 8.0], "Radiance": [1e-3 * (k + i), 3e-3, 2e-3, 1e-3],
                               "Transmission": [0.9, 0.5 + 0.2 * k, 0.8, 0.7]}, {"Wavelength": "micron", "Radiance": "W m-2 um-1 sr-1"})
            kids.append(P.T("foreground", n, None, P.T("datafile", f)))
    for k in range(p["cnoise"]):
        kids.append(P.T("customNoise", "%d" % (50 * (k + i)), "", P.T("name", "floor%d" % k)))
    com = P.common(d, p["R"], kids=kids)
    if p["source"] == "custom":
        f = P.write_table(os.path.join(d, "sed.csv"), {"Wavelength": [0.9, 2.0, 5.0, 9.0], "Sed": [2e6 * i, 1e6, 4e5, 1e5]},
                          {"Wavelength": "micron", "Sed": "W m-2 um-1"})
        com.kids = [k for k in com.kids if k.tag != "sourceSpectrum"]
        com.add(P.T("sourceSpectrum", "custom", None, P.T("CustomSed", f)))
    opt = P.T("optics", " ", None, P.T("Atel", repr(0.5 + 0.1 * i), "m**2"))
    if p["force"] != "absent":
        opt.add(P.T("ForceChannelWlEdge", p["force"]))
    opt.add(P.T("opticalElement", "M1", None, P.T("type", "surface"), P.T("transmission", "0.9"), P.T("temperature", "180", "K"), P.T("emissivity", "0.03")))
    psf = P.write_psf(os.path.join(d, "psf.fits"))
    chans = []
    for j, k in enumerate(p["chans"]):
        name = ("Ch%d", "Ch %d", "FGS-%d.1")[p.get("style", 0)] % (5 - j)
        lo, hi = [(1.5, 3.5), (3.0, 6.0)][(i + j) % 2]
        els = [P.T("opticalElement", "D1", None, P.T("type", "dichroic"), P.T("transmission", "0.8"), P.T("temperature", "150", "K"), P.T("emissivity", "0.1"))]
        if k == "slit":
            els.append(P.T("opticalElement", "slit", None, P.T("type", "slit"), P.T("width", "0.0105", "mm")))
        ex = [P.T("NoiseX", "0.0%d" % i)] if j == 0 else []
        qe = None
        if p.get("qe") == "file":
            f = P.write_table(os.path.join(d, "qe%d.csv" % j), {"Wavelength": [0.9, 2.0 + 0.3 * j, 5.0, 9.0], name: [0.3, 0.5, 0.7, 0.4], "other": [1.0, 1.0, 1.0, 1.0]},
                              {"Wavelength": "micron"})
            qe = P.T("qe", " ", None, P.T("datafile", f))
        if k == "phot":
            chans.append(P.photometer(name, lo, hi, 2.0, 2.5, psf, 3, optics=els, det=P.detector(3.0, qe), extra=ex))
        else:
            chans.append(P.spectrometer(d, name, lo, hi, 2.0, 2.5, psf, 5.0, 3.0, 60, j % 2 == 1, els, P.detector(3.0, qe), ex))
    P.root(d, com, opt, chans)


def cells(case, t, blanks):
    k = case["tgts"][t - 1]
    row = list(ROW[k["kind"]])
    row[0] = "S%d" % t
    if blanks:
        for x in PLACE:
            if x not in k["has"]:
                row[PLACE[x]] = ""
    return row + list(COORD[k["kind"]]) + ["T%d" % t, "" if k["kind"] == 2 else 5.5, "" if k["kind"] == 3 else 1.5]


def write_list(case, ts, f, blanks=True):
    with open(f, "w") as h:
        h.write(COLUMNS + "\n" + "".join(",".join(str(x) for x in cells(case, t, blanks)) + "\n" for t in ts))


def load_targets(case, d, ts=None):
    """the target objects: numbered as in the specification"""
    from exorad.tasks import LoadTargetList
    ts = ts or list(range(1, len(case["tgts"]) + 1))
    f = os.path.join(d, "objects.csv")
    write_list(case, ts, f, False)
    with exo.hush():
        objs = LoadTargetList()(target_list=f).target
    for t, o in zip(ts, objs):
        k = case["tgts"][t - 1]
        for x in PLACE:
            if x not in k["has"]:
                lack = k["lack"]
                if lack == 0:
                    setattr(o.star, x, np.ma.masked)
                elif lack == 1:
                    delattr(o.star, x)
                elif lack == 2:
                    setattr(o.star, x, 1.0)
                elif lack == 3:
                    setattr(o.star, x, None)
                elif lack == 5 and x != "M":
                    setattr(o.star, x, [1, 2] * getattr(o.star, x))
                else:
                    setattr(o.star, x, 3 * u.A)
    return dict(zip(ts, objs))


def prepare(d, i):
    pay = P.load(os.path.join(d, "p%d" % i, "payload.xml"))
    return pay, P.build(pay)


def do_step(step, t, pay, chans, tasks):
    task = tasks.get(step)
    if task is None:
        import exorad.tasks
        task = getattr(exorad.tasks, TASKS[step], None)
        if task is None:
            from exorad.tasks import foregroundHandler
            task = getattr(foregroundHandler, TASKS[step])
        task = task()
        if tasks is not NEW:
            tasks[step] = task
    rng = P.wl_range(pay)
    with exo.hush():
        if step == "prepare":
            from exorad.utils.passVal import PassVal
            if hasattr(PassVal, "set_from_payload"):
                PassVal.set_from_payload(pay)
            else:
                PassVal.working_R = pay["common"]["working_R"]["value"]
            if "foreground" not in pay["common"]:
                for a in ("foreground", "skyTransmission"):
                    if hasattr(t, a):
                        delattr(t, a)
            task(target=t, channels=chans)
        elif step == "sky":
            task(foregrounds=pay["common"]["foreground"], target=t, wl_range=rng)
        elif step == "source":
            task(target=t, source=pay["common"]["sourceSpectrum"], wl_range=rng)
        else:
            task(target=t, channels=chans)


NEW = {}


def observe(t, pay, chans, tasks):
    from exorad.tasks import ObserveTarget
    task = tasks.setdefault("observe", ObserveTarget()) if tasks is not NEW else ObserveTarget()
    with exo.hush():
        return task(target=t, payload=pay, channels=chans, wl_range=P.wl_range(pay))


# -- comparing --------------------------------------------------------------------------------
def same_column(a, b):
    try:
        x, y = np.asarray(u.Quantity(a).value, float), np.asarray(u.Quantity(b).to_value(u.Quantity(a).unit), float)
    except Exception:
        return [str(i) for i in a] == [str(i) for i in b]
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=0, equal_nan=True)


def same_value(a, b):
    if a is b:
        return True
    try:
        if hasattr(a, "unit") or hasattr(b, "unit"):
            return same_column(u.Quantity(a).ravel(), u.Quantity(b).ravel())
        if isinstance(a, float) and isinstance(b, float):
            return abs(a - b) <= 1e-9 * abs(a)
        return str(a) == str(b)
    except Exception:
        return str(a) == str(b)


def same_meta(a, b):
    k = [x for x in set(a) | set(b)]
    return all(x in a and x in b and same_value(a[x], b[x]) for x in k)


def brighten(t):
    from exorad.models.signal import Sed
    t.star.sed = Sed(t.star.sed.wl_grid, t.star.sed.data * 2)


def alone(case, d, t, i, made=None, bright=False):
    """group -> columns of target t observed alone with payload i, in a fresh process"""
    fails = not set(case["pays"][i - 1]["needs"]) <= set(case["tgts"][t - 1]["has"])

    def run():
        pay, chans = made() if made else prepare(d, i)
        tab = None
        if not fails and not bright:
            tgt = load_targets(case, d, [t])[t]
            tab = observe(tgt, pay, chans, NEW).table.copy()
        # the same by hand, to know which step each column belongs to
        tgt = load_targets(case, d, [t])[t]
        groups, known = {}, set()
        for s in STEPS(case, i):
            if fails and s == "source":
                break
            do_step(s, tgt, pay, chans, NEW)
            if bright and s == "source":
                brighten(tgt)
            new = [c for c in tgt.table.colnames if c not in known]
            known |= set(new)
            g = {"sky": "chan", "prepare": "chan", "source": "chan"}.get(s, s)
            groups[g] = groups.get(g, []) + new
        if tab is None:
            tab = tgt.table.copy()
        elif sorted(known) != sorted(tab.colnames):
            raise RuntimeError("steps and observation differ: %s" % (known ^ set(tab.colnames)))
        return {"groups": groups, "table": {c: u.Quantity(tab[c]) if c != "chName" else [str(x) for x in tab[c]] for c in tab.colnames},
                "meta": dict(tab.meta)}
    return forked(run)


def STEPS(case, i):
    return (["prepare", "sky", "forelight"] if case["pays"][i - 1]["frgs"] else ["prepare"]) + ["source", "starlight", "noise"]


def match(tab, refs):
    """group -> payloads whose result these columns equal; the columns of no group"""
    names = set(tab.colnames)
    out = {}
    every = set()
    for g in ("chan", "forelight", "starlight", "noise"):
        ids, any_col = [], False
        for i, r in refs.items():
            cols = r["groups"].get(g, [])
            here = [c for c in cols if c in names]
            any_col |= bool(here)
            if cols and len(here) == len(cols) and all(same_column(r["table"][c], tab[c]) for c in cols):
                ids.append(i)
        if not any_col:
            ids = [-1]
        out[g] = ids
    return out


def others(tab, ref):
    return sorted(c for c in tab.colnames if not any(c in v for v in ref["groups"].values()))


def meta_of(tab, refs):
    return [i for i, r in refs.items() if same_meta(dict(tab.meta), r["meta"])]


def canon(x, out, seen=None):
    """a flat text of a description, to see whether it changes"""
    if isinstance(x, dict):
        out.append("{")
        for k in x:
            out.append(str(k))
            canon(x[k], out)
        out.append("}")
    elif isinstance(x, Table):
        for c in x.colnames:
            out.append(c)
            canon(x[c], out)
        canon(dict(x.meta), out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            canon(y, out)
    elif isinstance(x, (u.Quantity, np.ndarray)) or hasattr(x, "dtype"):
        out.append(str(getattr(x, "unit", "")) + str(np.shape(x)) + repr(np.asarray(x).tolist()))
    elif hasattr(x, "wl_grid"):
        canon(x.wl_grid, out), canon(x.data, out)
    else:
        out.append(repr(x) if isinstance(x, (str, int, float, bool, type(None), bytes)) else type(x).__name__)


def state(pay, chans):
    out = []
    canon(pay, out)
    for c in chans:
        out.append(c)
        canon(chans[c].table, out), canon(chans[c].built_instr, out), canon(chans[c].description, out)
    return out


def look(r):
    """the results of a target as they are now"""
    out = [str(r.name)]
    canon(r.table, out)
    return out


def walk(f, name):
    """everything written for a target, but its number in the list"""
    res = {}
    with h5py.File(f, "r") as h:
        g = h["targets"]
        if name not in g:
            return None

        def add(k, o):
            if isinstance(o, h5py.Dataset) and k != "id":
                res[k] = o[()]
            for a in o.attrs:
                res[k + "@" + a] = o.attrs[a]
        g[name].visititems(add)
    return res


def differs(a, b):
    if set(a) != set(b):
        return "entries %s" % sorted(set(a) ^ set(b))[:4]
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.dtype.names:
            if x.dtype.names is not None and set(x.dtype.names) != set(y.dtype.names or ()):
                return "columns of " + k
            for n in x.dtype.names:
                if not equal(x[n], y[n]):
                    return "%s.%s" % (k, n)
        elif k.endswith("__table_column_meta__"):
            if sorted(map(str, x.tolist())) != sorted(map(str, y.tolist())):
                if not loosely(x, y):
                    return k
        elif not equal(x, y):
            return k
    return ""


def digest(ds):
    """a dataset as a comparable value"""
    x = np.asarray(ds[()])
    if x.dtype.names:
        return tuple((n, digest1(x[n])) for n in x.dtype.names)
    return digest1(x)


def digest1(x):
    return str(x.shape) + repr([float("%.12g" % v) for v in x.ravel().astype(float)] if x.dtype.kind in "fiu" else x.ravel().tolist())


def loosely(x, y):
    return len(x) == len(y)


def equal(x, y):
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "fiu" and y.dtype.kind in "fiu":
        return np.allclose(x.astype(float), y.astype(float), rtol=1e-9, atol=0, equal_nan=True)
    return x.tolist() == y.tolist()


def pipeline(case, d, ts, i, workers, debug, plot, contrib, tag):
    from exorad.exorad import standard_pipeline
    o = os.path.join(d, "out_" + tag)
    os.makedirs(o)
    lst = os.path.join(d, "list_%s.csv" % tag)
    write_list(case, ts, lst)
    out = os.path.join(o, "out.h5")
    with exo.hush():
        standard_pipeline(options=os.path.join(d, "p%d" % i, "payload.xml"), target_list=lst, output=out, plot=bool(plot),
                          full_contrib=bool(contrib), n_thread=workers, debug=bool(debug))
    return out


def tid(name):
    return int(str(name)[1:]) if str(name)[1:].isdigit() else -9


def record(case):
    import multiprocessing
    multiprocessing.current_process()._config["daemon"] = False
    d = tempfile.mkdtemp(prefix="obs", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    cwd = os.getcwd()
    os.chdir(d)
    try:
        np_, nt = len(case["pays"]), len(case["tgts"])
        for i in range(1, np_ + 1):
            write_payload(case, i, d)
        ev.append({"ev": "Setup", "pays": [{k: p[k] for k in ("frgs", "R", "needs")} for p in case["pays"]],
                   "tgts": [{"has": t["has"]} for t in case["tgts"]]})
        fails = lambda t, i: not set(case["pays"][i - 1]["needs"]) <= set(case["tgts"][t - 1]["has"])
        used = {(t, o["p"]) for o in case["ops"] for t in ([o["t"]] if o["t"] else o["ts"]) if o["op"] not in ("Pipeline", "Brighten")}
        try:
            refs = {t: {} for t in range(1, nt + 1)}
            for t, i in sorted(used):
                refs[t][i] = alone(case, d, t, i)
            for t, i in sorted({(o["t"], o["p"]) for o in case["ops"] if o["op"] == "Brighten"}):
                refs[t][100 + i] = alone(case, d, t, i, bright=True)
            written = {}
            for o in case["ops"]:
                if o["op"] == "Pipeline":
                    for t in o["ts"]:
                        k = (t, o["p"], o["contrib"])
                        if not fails(t, o["p"]) and k not in written:
                            f = forked(pipeline, case, d, [t], o["p"], 1, 1, 0, o["contrib"], "alone_%d_%d_%d" % k)
                            written[k] = walk(f, "T%d" % t)
            import exorad.exorad  # noqa: F401
            pays = {i: prepare(d, i) for i in range(1, np_ + 1)}
            before = {i: state(*pays[i]) for i in pays}
            objs = load_targets(case, d)
            tasks = {} if case["reuse"] else NEW
            given = []
            for n, o in enumerate(case["ops"]):
                t, i = o["t"], o["p"]
                e = {"ev": o["op"], "t": t, "p": i, "out": "ok"}
                try:
                    if o["op"] == "Brighten":
                        brighten(objs[t])
                        ev.append(e)
                        continue
                    if o["op"] == "Observe":
                        observe(objs[t], *pays[i], tasks)
                    elif o["op"] == "Step":
                        do_step(o["step"], objs[t], *pays[i], tasks)
                    elif o["op"] == "List":
                        from exorad.tasks import ObserveTargetlist
                        e.update(ts=o["ts"], workers=o["workers"])
                        task = ObserveTargetlist() if tasks is NEW else tasks.setdefault("list", ObserveTargetlist())
                        with exo.hush():
                            res = task(targets=[objs[x] for x in o["ts"]], payload=pays[i][0], channels=pays[i][1], wl_range=P.wl_range(pays[i][0]),
                                       plot=bool(o["plot"]), out_dir=d, n_thread=o["workers"], debug=bool(o["debug"]))
                        e["names"] = [tid(x) for x in res]
                        e["res"] = [dict(t=tid(x), groups=match(r.table, refs[tid(x)]), meta=meta_of(r.table, refs[tid(x)]),
                                         other=others(r.table, refs[tid(x)][i])) for x, r in res.items() if i in refs.get(tid(x), {})]
                    else:
                        e["ts"] = o["ts"]
                        f = pipeline(case, d, o["ts"], i, o["workers"], o["debug"], o["plot"], o["contrib"], str(n))
                        with h5py.File(f, "r") as h:
                            names = list(h["targets"]) if "targets" in h else []
                        e["names"] = [tid(x) for x in names]
                        e["res"] = [dict(t=tid(x), same=differs(written[(tid(x), i, o["contrib"])], walk(f, x)))
                                    for x in names if (tid(x), i, o["contrib"]) in written]
                except Exception as ex:
                    e["out"] = "%s: %s" % (type(ex).__name__, str(ex)[:200])
                exo.quiet()
                if o["op"] in ("Observe", "Step") and e["out"] == "ok":
                    r = refs[t].get(i)
                    e["groups"] = match(objs[t].table, refs[t])
                    e["other"] = others(objs[t].table, r) if r else []
                    e["meta"] = meta_of(objs[t].table, refs[t])
                if o["op"] == "Step":
                    e["i"] = STEPS(case, i).index(o["step"]) + 1
                e["altered"] = [k for k, (r, was) in enumerate(given, 1) if look(r) != was]
                if o["op"] == "List" and e["out"] == "ok":
                    given += [(r, look(r)) for r in res.values()]
                e["changed"] = [k for k in pays if state(*pays[k]) != before[k]]
                ev.append(e)
        except Exception as ex:
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-1500:]})
        return ev
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    for e in r:
        if e["ev"] == "Observe" and e["out"] == "ok":
            e["groups"]["noise"] = []
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("ObservationMC", expect_actions=["MSetup", "MStep", "MBrighten", "MObserve", "MList", "MPipeline"])
    cases = ctx.pick("observe", lambda: ctx.gen("ObservationGen", cfg="ObservationGenThorough.cfg" if ctx.thorough else "ObservationGen.cfg",
                                                simulate=ctx.size(60, 1500), depth=20))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=600)
    ctx.samples = recs[:2]
    bad = ctx.validate("ObservationTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("ObservationTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "observe")
