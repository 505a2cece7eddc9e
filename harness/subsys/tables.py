"""C08: tables stacked and merged by the real code against TargetTable.tla,
for generated tables and for the steps of real observations."""
import os
import random
import shutil
import tempfile
from types import SimpleNamespace

import exo
import numpy as np
from astropy import units as u
from astropy.table import QTable

import payload as P
from subsys import sky

exo.quiet()


class Ids:
    """equal values get equal numbers; zero is 0"""

    def __init__(self):
        self.d = {}

    def __call__(self, x):
        if hasattr(x, "value"):
            x = x.value
        if isinstance(x, bytes):
            x = x.decode()
        if isinstance(x, str):
            k = "s" + x
        elif np.ma.is_masked(x):
            k = "masked"
        else:
            x = float(x)
            if x == 0:
                return 0
            if x == x:
                # equal but for the last digits: the same numbers said in other units
                ks = ["%.11g" % (x * (1 + e)) for e in (0, 1e-14, -1e-14)]
                n = next((self.d[k] for k in ks if k in self.d), len(self.d) + 1)
                for k in ks:
                    self.d.setdefault(k, n)
                return n
            k = "nan"
        return self.d.setdefault(k, len(self.d) + 1)


def said(t):
    """the same table in the units the specification knows"""
    t = t.copy()
    for c in t.colnames:
        un = getattr(t[c], "unit", None)
        if un is not None and un.is_equivalent("ct/s") and un != u.ct / u.s:
            t[c] = u.Quantity(t[c]).to(u.ct / u.s)
    return t


def enc(t, ids):
    t = said(t)
    cols = ["%s [%s]" % (c, "" if t[c].unit is None else t[c].unit.to_string()) if hasattr(t[c], "unit") else c + " []" for c in t.colnames]
    rows = [{n: ids(t[c][i]) for n, c in zip(cols, t.colnames)} for i in range(len(t))]
    return {"cols": cols, "rows": rows, "meta": encm(t.meta, ids)}


def encm(meta, ids):
    m = {str(k): ids(v) if not hasattr(v, "shape") or v.shape == () else ids(str(v)) for k, v in meta.items()
         if not str(k).startswith("__") and isinstance(v, (int, float, str, u.Quantity, np.floating, np.integer))}
    return [m] if m else []


def table(t, height=None, name="x"):
    r = random.Random(t["seed"])
    q = QTable()
    k = t["height"] if height is None else height
    for c in t["cols"]:
        n, _, un = c.partition(" ")
        if n == "chName":
            q[n] = ["ch%d" % r.randint(1, 99)] * k
        else:
            v = np.array([float(r.randint(1, 10**6)) for _ in range(k)])
            q[n] = v * u.Unit(un) if un else v
            if un == "ct/s" and P.UNITS:
                q[n] = q[n].to(u.Unit(r.choice(["ct/s", "ct/ms", "ct/ks", "cm2 ct / (s m2)"])))
    q.meta.update({k: v for k, v in (t["meta"] if isinstance(t["meta"], dict) else {}).items()})
    return q


def snap(ts):
    ids = Ids()
    return [[enc(t, ids) for t in ts]] and [(list(t.colnames), [[str(x) for x in t[c]] for c in t.colnames], dict(t.meta)) for t in ts]


def record(case):
    from exorad.tasks import MergeChannelsOutput, PrepareTarget, UpdateTargetTable
    from exorad.utils.util import vstack_tables
    ids, ev = Ids(), [{"ev": "Reset"}]
    try:
        chs = {"c%d" % (9 - j): SimpleNamespace(table=table(t)) for j, t in enumerate(case["chans"])}
        ts = [c.table for c in chs.values()]
        before, tabs = snap(ts), [enc(t, ids) for t in ts]
        tg = P.targets([P.star()])[0]
        PrepareTarget()(target=tg, channels=chs)
        ev.append({"ev": "Prepare", "tabs": tabs, "got": enc(tg.table, ids), "kept": int(snap(ts) == before)})
        g = MergeChannelsOutput()(channels=chs)
        ev.append({"ev": "Prepare", "tabs": tabs, "got": enc(g, ids), "kept": int(snap(ts) == before)})
        ev.append(dict(ev[1], got=enc(tg.table, ids)))
        h = sum(t["height"] for t in case["chans"])
        for s in case["steps"]:
            rs = [table(t, h if s["kind"] == "one" else None) for t in s["tabs"]]
            before, tabs = snap(rs + ts), [enc(t, ids) for t in rs]
            res = vstack_tables(rs) if s["kind"] == "per" else rs[0]
            meta = encm(res.meta, ids)
            UpdateTargetTable()(target=tg, table=res)
            ev.append({"ev": "Merge", "tabs": tabs, "meta": meta, "got": enc(tg.table, ids),
                       "kept": int(snap(rs + ts) == before)})
    except Exception as ex:
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex)})
    return ev


def record_real(case):
    """the steps of an observation: every channel's own results, and the table"""
    from exorad.tasks import (EstimateForegrounds, LoadSource, MergeChannelsOutput, PrepareTarget,
                              PropagateForegroundLight, PropagateTargetLight)
    d = tempfile.mkdtemp(prefix="tab", dir=os.environ.get("VERIF_HOME"))
    ids, ev = Ids(), [{"ev": "Reset"}]
    try:
        pay = P.load(sky.write(case, d, case["obs"][0], "p"))
        chs = P.build(pay)
        t = P.targets([P.star()])[0]
        ts = [c.table for c in chs.values()]
        before = snap(ts)
        names = [n for n in pay["channel"]] if len(case["chans"]) > 1 else [pay["channel"]["value"]]
        tabs = [enc(chs[n].table, ids) for n in names]
        t = PrepareTarget()(target=t, channels=chs)
        ev.append({"ev": "Prepare", "tabs": tabs, "got": enc(t.table, ids), "kept": int(snap(ts) == before)})
        rng = P.wl_range(pay)
        steps = []
        if case["obs"][0]:
            t = EstimateForegrounds()(foregrounds=pay["common"]["foreground"], target=t, wl_range=rng)
            steps.append((PropagateForegroundLight, "propagate_diffuse_foreground"))
        t, _ = LoadSource()(target=t, source=pay["common"]["sourceSpectrum"], wl_range=rng)
        ev.append(dict(ev[-1], got=enc(t.table, ids)))
        for task, method in steps + [(PropagateTargetLight, "propagate_target")]:
            rs = [getattr(chs[n], method)(t) for n in names]
            tabs = [enc(r, ids) for r in rs]
            t = task()(channels=chs, target=t)
            ev.append({"ev": "Merge", "tabs": tabs, "meta": encm(rs[0].meta, ids), "got": enc(t.table, ids),
                       "kept": int(snap(ts) == before)})
    except Exception as ex:
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex)})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Merge":
            k = sorted(e["got"]["rows"][0])[0]
            e["got"]["rows"][0][k] += 1
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("TargetTableMC", expect_actions=["MPrepare", "MMerge"])
    cases = ctx.pick("tables", lambda: ctx.gen("TargetTableGen", cfg="TargetTableGenThorough.cfg" if ctx.thorough else "TargetTableGen.cfg"))
    if cases:
        recs = ctx.run(cases, record)
        ctx.samples = recs[:2]
        bad = ctx.validate("TargetTableTrace", recs, parallel=4)
        if not bad:
            ctx.selftest("TargetTableTrace", recs, corrupt)
        ctx.report(bad, cases, recs, "tables")
    cases = ctx.pick("tables_real", lambda: ctx.gen("SkyGen", limit=ctx.size(24, 90)))
    if cases:
        recs = ctx.run(cases, record_real, limit=240)
        ctx.report(ctx.validate("TargetTableTrace", recs, parallel=2), cases, recs, "tables_real")
