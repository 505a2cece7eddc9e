"""C16, C18: histories on output files and saved payloads against OutputFile.tla."""
import hashlib
import importlib.metadata as metadata
import os
import shutil
import tempfile
import traceback
from collections import OrderedDict

import exo
import h5py
import numpy as np
from astropy import units as u

import payload as P
from subsys import observe as O
from subsys import store

exo.quiet()
FULL = {"has": ["D", "R", "M", "Teff"], "lack": 0}


def path(d, f):
    return os.path.join(d, f[0], f[1]) if f else None


# -- what a payload in memory is ----------------------------------------------------------
def plain(x):
    """a description or built data as the values it holds"""
    if isinstance(x, dict):
        r = (OrderedDict if isinstance(x, OrderedDict) else dict)()
        for k, v in x.items():
            r[str(k)] = plain(v)
        un = r.get("unit")
        if isinstance(un, str) and "value" in r and not isinstance(r["value"], (u.Quantity, str)):
            r["value"] = u.Quantity(r["value"], un)
        return r
    if isinstance(x, (list, tuple)):
        return np.array(x)
    return x


def flat(d):
    return sorted(store.entries([], plain(d)), key=lambda e: (e["path"], e["k"]))


def image(pay, chans):
    rng = P.wl_range(pay)
    # sub-keys that building adds are the builder's business
    return {"desc": [flat(pay)] + [flat(chans[c].description) for c in sorted(chans)],
            "table": [store.tab([c], chans[c].table) for c in sorted(chans)],
            "built": [flat(chans[c].built_instr) for c in sorted(chans)],
            "range": ["%r %s" % (r.value.item() if hasattr(r.value, "item") else r.value, r.unit) for r in rng]}


def built(f):
    from exorad.tasks import PreparePayload
    with exo.hush():
        pay, chans, _ = PreparePayload()(payload_file=f, output=None)
    return image(pay, chans), list(chans)


def same(a, b):
    """first difference of two images, '' when none"""
    if a == b:
        return ""
    for x, y in zip(a, b):
        if x == y:
            continue
        if isinstance(x, list):
            px, py = {tuple(e["path"]): e for e in x}, {tuple(e["path"]): e for e in y}
            for p in sorted(set(px) | set(py)):
                if px.get(p) != py.get(p):
                    return "%s: %s / %s" % ("/".join(p), short(px.get(p)), short(py.get(p)))
        return "%s / %s" % (short(x), short(y))
    return "%d / %d" % (len(a), len(b))


def short(e):
    if not isinstance(e, dict):
        return str(e)[:150]
    return str({k: v for k, v in e.items() if v and k != "path"})[:150]


# -- what is in the directories -------------------------------------------------------------
def tree(g):
    """everything in a group, with the order of its members"""
    out = []

    def add(k, o):
        out.append((k, O.digest(o) if isinstance(o, h5py.Dataset) else "group"))
        out.extend((k + "@" + a, str(v)) for a, v in o.attrs.items())
    g.visititems(add)
    return sorted(out)


def saved(f, d):
    """the payload group written from a description, in a fresh process"""
    from exorad.tasks import PreparePayload
    o = os.path.join(d, "ref.h5")
    with exo.hush():
        PreparePayload()(payload_file=f, output=o)
    with h5py.File(o, "r") as h:
        t = tree(h["payload"])
    os.remove(o)
    return t


def content(f, refs):
    import exorad
    r = {"kind": "?", "id": 0, "info": 0, "pay": 0, "tgts": [], "extra": [], "why": ""}
    raw = open(f, "rb").read()
    h = hashlib.sha1(raw).hexdigest()
    if h in refs["texts"]:
        r["kind"], r["id"] = refs["texts"][h]
        return r
    if not raw.startswith(b"\x89HDF"):
        r["why"] = "%d bytes: %r" % (len(raw), raw[:30])
        return r
    r["kind"] = "h5"
    with h5py.File(f, "r") as h:
        try:
            i = h["info/ExoRad"]
            val = lambda k: i[k][()].decode() if isinstance(i[k][()], bytes) else str(i[k][()])
            ok = val("program_version") == metadata.version("exorad") and len(i) == len(h.attrs) and val("program_name") == exorad.__title__ \
                and "program_version" in h.attrs
            r["info"] = int(bool(ok))
        except Exception as ex:
            r["why"] = "info: %s" % ex
        for k in h:
            if k == "info":
                continue
            if k == "payload":
                t = tree(h[k])
                ids = [p for p in refs["pays"] if refs["pays"][p] == t]
                r["pay"] = ids[0] if ids else -1
                if not ids:
                    a = min((refs["pays"][p] for p in refs["pays"]), key=lambda x: len(set(x) ^ set(t)))
                    r["why"] = "payload: %s" % sorted(set(a) ^ set(t))[:2]
            elif k == "targets":
                for n in h[k]:
                    w = O.walk(f, n)
                    m = [list(x) for x, v in refs["tgts"].items() if "T%d" % x[0] == n and O.differs(v, w) == ""]
                    r["tgts"].append(m[0] if m else [O.tid(n), -1, -1])
                    if not m:
                        r["why"] = "; ".join("%s %s" % (x, O.differs(v, w)) for x, v in refs["tgts"].items() if "T%d" % x[0] == n)[:300]
            else:
                try:
                    x = h[k]["v"][()]
                    r["extra"].append([k, int(x) if np.array_equal(h[k]["q"]["value"][()], [x, 2.0]) and str(h[k]["q"]["unit"].asstr()[()]) == "m" else -1])
                except Exception:
                    r["extra"].append([k, -1])
    return r


def listing(d, refs):
    out = []
    for s in ("in", "a", "b"):
        for b in sorted(os.listdir(os.path.join(d, s))):
            f = os.path.join(d, s, b)
            if os.path.isfile(f) and not b.endswith(".png"):
                out.append(dict(d=s, b=b, **content(f, refs)))
    return out


def single(d, f, t, lst, c):
    from exorad.exorad import standard_pipeline
    o = os.path.join(d, "alone")
    os.makedirs(o)
    out = os.path.join(o, "o.h5")
    with exo.hush():
        standard_pipeline(options=f, target_list=lst, output=out, full_contrib=bool(c))
    w = O.walk(out, "T%d" % t)
    shutil.rmtree(o)
    return w


def record(case):
    import multiprocessing
    multiprocessing.current_process()._config["daemon"] = False
    d = tempfile.mkdtemp(prefix="out", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    cwd = os.getcwd()
    os.chdir(d)
    case = dict(case, tgts=[dict(FULL, kind=k) for k in (1, 3, 2)])
    try:
        for s in ("in", "a", "b", "pays"):
            os.makedirs(s)
        np_ = len(case["pays"])
        refs = {"texts": {}, "pays": {}, "tgts": {}}
        xml = {}
        for i in range(1, np_ + 1):
            O.write_payload(case, i, os.path.join(d, "pays"))
            xml[i] = os.path.join(d, "in", "p%d.xml" % i)
            shutil.move(os.path.join(d, "pays", "p%d" % i, "payload.xml"), xml[i])
            refs["texts"][hashlib.sha1(open(xml[i], "rb").read()).hexdigest()] = ["xml", i]
        for i, ts in enumerate(case["lists"], 1):
            f = os.path.join(d, "in", "l%d.csv" % i)
            O.write_list(case, ts, f)
            refs["texts"][hashlib.sha1(open(f, "rb").read()).hexdigest()] = ["csv", i]
        ev.append({"ev": "Setup", "pays": [["Ch"] for _ in case["pays"]], "lists": case["lists"], "disk": listing(d, refs)})
        try:
            images, names = {}, {}
            for i in xml:
                images[i], names[i] = O.forked(built, xml[i])
                refs["pays"][i] = O.forked(saved, xml[i], d)
            wanted = sorted({(t, i, o["contrib"]) for o in case["ops"] if o["op"] == "Pipeline" for i in xml
                             for t in case["lists"][int(o["lst"][1][1]) - 1]})
            for t, i, c in wanted:
                f = os.path.join(d, "one.csv")
                O.write_list(case, [t], f)
                refs["tgts"][(t, i, c)] = O.forked(single, d, xml[i], t, f, c)
            alone = {}
            import exorad.exorad  # noqa: F401
            from exorad.output.hdf5 import HDF5Output
            from exorad.tasks import PreparePayload
            mem = []
            for o in case["ops"]:
                e = {"ev": o["op"], "out": "ok"}
                try:
                    if o["op"] == "Write":
                        e.update(f=o["out"], append=o["append"], g=o["g"], v=o["v"])
                        with HDF5Output(path(d, o["out"]), append=bool(o["append"])) as out:
                            out.store_dictionary({"v": o["v"], "q": np.array([o["v"], 2.0]) * u.m}, o["g"])
                    elif o["op"] == "Prepare":
                        e.update(opt=o["opt"], to=o["out"], names=[names[i] for i in sorted(names)])
                        with exo.hush():
                            pay, chans, rng = PreparePayload()(payload_file=path(d, o["opt"]), output=path(d, o["out"]))
                        mem.append((pay, chans, rng))
                        im = image(pay, chans)
                        for c in ("desc", "table", "built"):
                            e[c] = [i for i in images if same(images[i][c], im[c]) == ""]
                        e["why"] = [same(images[i][c], im[c])[:300] for i in images for c in ("desc", "table", "built")]
                        im["range"] = ["%r %s" % (r.value.item() if hasattr(r.value, "item") else r.value, r.unit) for r in rng]
                        e["range"] = [i for i in images if images[i]["range"] == im["range"]]
                        e["channels"] = list(chans)
                    elif o["op"] == "Observe":
                        e.update(k=o["k"], t=o["t"])
                        if o["k"] > len(mem):
                            continue
                        t = o["t"]
                        if t not in alone:
                            alone[t] = {i: O.forked(reference, case, d, t, i) for i in xml}
                        tgt = O.load_targets(case, d, [t])[t]
                        with exo.hush():
                            from exorad.tasks import ObserveTarget
                            pay, chans, rng = mem[o["k"] - 1]
                            ObserveTarget()(target=tgt, payload=pay, channels=chans, wl_range=rng)
                        e["groups"] = O.match(tgt.table, alone[t])
                        e["other"] = sorted(c for c in tgt.table.colnames if not any(c in v for r in alone[t].values() for v in r["groups"].values()))
                        e["meta"] = O.meta_of(tgt.table, alone[t])
                    elif o["op"] == "Rebuild":
                        e["k"] = o["k"]
                        if o["k"] > len(mem):
                            continue
                        outs = []
                        for c in mem[o["k"] - 1][1].values():
                            try:
                                with exo.hush():
                                    c.build()
                                outs.append("ok")
                            except ValueError:
                                outs.append("ValueError")
                        e["out"] = "ok" if "ok" in outs else "ValueError"
                    else:
                        from exorad.exorad import standard_pipeline
                        e.update(opt=o["opt"], lst=o["lst"], to=o["out"], replace=o["replace"], contrib=o["contrib"], objects=o["objects"])
                        opt = path(d, o["opt"])
                        if o["objects"]:
                            opt = P.load(opt)
                        with exo.hush():
                            standard_pipeline(options=opt, target_list=path(d, o["lst"]), output=path(d, o["out"]), plot=bool(o["plot"]),
                                              full_contrib=bool(o["contrib"]), replace=bool(o["replace"]))
                except Exception as ex:
                    e["out"] = "%s: %s" % (type(ex).__name__, str(ex)[:200])
                    e["tb"] = traceback.format_exc()[-600:]
                exo.quiet()
                if o["op"] in ("Write", "Prepare", "Pipeline"):
                    e["disk"] = listing(d, refs)
                ev.append(e)
        except Exception as ex:
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-1500:]})
        return ev
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def reference(case, d, t, i):
    def run():
        pay = P.load(os.path.join(d, "in", "p%d.xml" % i))
        return pay, P.build(pay)
    return O.alone(case, d, t, i, run)


def corrupt(r):
    for e in r:
        if e["ev"] in ("Write", "Prepare", "Pipeline") and e["out"] == "ok":
            for x in e["disk"]:
                if x["kind"] == "h5":
                    x["pay"] = 7
                    return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("OutputFileMC", expect_actions=["MSetup", "MWrite", "MPrepare", "MObserve", "MRebuild", "MPipeline", "MFails"])
    cases = ctx.pick("outfile", lambda: ctx.gen("OutputFileGen", cfg="OutputFileGenThorough.cfg" if ctx.thorough else "OutputFileGen.cfg",
                                                simulate=ctx.size(60, 1500), depth=20))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=600)
    ctx.samples = recs[:2]
    bad = ctx.validate("OutputFileTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("OutputFileTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "outfile")
