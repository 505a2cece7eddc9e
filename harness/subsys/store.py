"""C17: nested dictionaries from StoreGen stored in real output files and read back."""
import os
import tempfile
from collections import OrderedDict

import exo
import h5py
import numpy as np
from astropy import units as u
from astropy.table import Column, QTable, Table

from exorad.models import signal as S
from exorad.output.hdf5 import HDF5Output, load

exo.quiet()
SIGNALS = {"": S.Signal, "K": None, "W / (m2 um)": S.Sed, "ct / s": S.CountsPerSeconds}


# letters beyond ASCII, as the specification writes them
LETTERS = {"&eacute;": "\u00e9", "&micro;": "\u00b5"}


def spelt(x):
    for a, b in LETTERS.items():
        x = x.replace(b, a)
    return x


def letters(x):
    for a, b in LETTERS.items():
        x = x.replace(a, b)
    return x


def num(text, kind):
    if kind == "text":
        return letters(text)
    return int(text) if kind == "int" else bool(int(text)) if kind == "bool" else float(text)


def txt(x):
    """one number as the canonical text the specification uses"""
    x = getattr(x, "item", lambda: x)()
    if isinstance(x, bytes):
        return spelt(x.decode("utf-8", "replace"))
    if isinstance(x, str):
        return spelt(x)
    if isinstance(x, bool):
        return str(int(x))
    if isinstance(x, float) and x == x and abs(x) < 1e15 and x == int(x):
        return str(int(x))
    return str(x)


def unit(x):
    x = getattr(x, "decode", lambda _: x)("utf-8") if isinstance(x, bytes) else x
    return u.Unit(x if x is not None else "").to_string()


def shaped(n):
    vals = [num(v, n["kind"]) for v in n["vals"]]
    if n["n"] == 0 and n["k"] not in ("array",):
        return np.array(vals)[0] if n["id"] % 2 and n["kind"] != "text" else vals[0]    # numpy scalars
    a = np.array(vals, dtype={"int": np.int64, "float": float, "bool": bool}[n["kind"]])
    return a.reshape((n["n"], n["m"])) if n["m"] else a


def table(n):
    """one kind of table for plain columns, the other for quantities"""
    t = QTable() if n["m"] else Table()
    for c in n["cols"]:
        vals = [num(v, c["kind"]) for v in c["vals"]]
        a = np.array(vals, dtype={"int": np.int64, "float": float, "bool": bool, "text": str}[c["kind"]])
        if n["m"] and c["unit"] and c["kind"] == "float":
            t[c["name"]] = a * u.Unit(c["unit"])
        else:
            t[c["name"]] = Column(a, unit=c["unit"] or None)
    for m in n["meta"]:
        v = num(m["val"], m["kind"] if m["kind"] in ("int", "text") else "float")
        t.meta[m["key"]] = v * u.Unit(m["unit"]) if m["kind"] == "quantity" else v
    return t


def build(n):
    k = n["k"]
    n = dict(n, id=len(n["name"] + "".join(n["vals"])))
    if k == "odict":
        return OrderedDict((x["name"], build(x)) for x in n["kids"])
    if k == "dict":
        return {x["name"]: build(x) for x in n["kids"]}
    if k == "list":
        return shaped(n).tolist()
    if k == "text":
        return letters(n["vals"][0])
    if k in ("scalar", "bool", "array"):
        return shaped(n)
    if k == "quantity":
        return shaped(n) * u.Unit(n["unit"])
    if k == "signal":
        wl = np.array([float(x) for x in n["wl"]]) * u.um
        cls = SIGNALS[n["unit"]]
        if cls is None:
            return S.CustomSignal(wl, shaped(n) * u.Unit(n["unit"]), u.Unit(n["unit"]))
        return cls(wl, shaped(n) * u.Unit(n["unit"]))
    if k in ("tag", "bare"):
        d = {"value": shaped(n) * u.Unit(n["unit"])}
        if k == "tag":
            d["unit"] = n["unit"]
        d.update({x["name"]: build(x) for x in n["kids"]})
        return d
    return table(n)


def entry(path, k, shape=(), vals=(), unit="", cols=(), meta=()):
    return {"path": list(path), "k": k, "shape": list(shape), "vals": list(vals), "unit": unit, "cols": list(cols), "meta": [list(m) for m in meta]}


def numbers(path, x, un):
    a = np.asarray(getattr(x, "value", x))
    return entry(path, "num", a.shape, [txt(v) for v in a.ravel()], un)


def tab(path, t):
    cols = []
    for c in t.colnames:
        col = t[c]
        vals = np.asarray(getattr(col, "value", col))
        kind = {"f": "float", "i": "int", "b": "bool", "S": "text", "U": "text", "O": "text"}.get(vals.dtype.kind, vals.dtype.str)
        cols.append({"name": c, "kind": kind, "vals": [txt(v) for v in vals], "unit": unit(col.unit)})
    meta = []
    for k, v in t.meta.items():
        q = isinstance(v, u.Quantity)
        meta.append((k, txt(v.value if q else v), unit(v.unit) if q else ""))
    return entry(path, "table", cols=cols, meta=meta)


def entries(path, d):
    """canonical form of what load() returned"""
    res = []
    tables = [k for k in d if isinstance(d[k], (Table, QTable))]
    for k, v in d.items():
        p = path + [k]
        if k in tables:
            res.append(tab(p, v))
        elif isinstance(v, dict):
            o = isinstance(v, OrderedDict)
            res.append(entry(p, "odict" if o else "dict", vals=list(v) if o else ()))
            res += entries(p, v)
        elif k == "unit" and "value" in d:
            continue
        elif k == "value":
            un = unit(v.unit) if isinstance(v, u.Quantity) else "not a quantity" if "unit" in d else ""
            if "unit" in d and unit(d["unit"]) != un:
                un += " beside " + unit(d["unit"])
            res.append(numbers(p, v, un))
        elif isinstance(v, u.Quantity):
            res += [entry(p, "dict"), numbers(p + ["value"], v, unit(v.unit))]
        elif isinstance(v, (str, bytes)):
            res.append(entry(p, "text", vals=[txt(v)]))
        elif isinstance(v, (bool, int, float, np.generic, np.ndarray)) and np.asarray(v).dtype.kind in "bif":
            res.append(numbers(p, v, ""))
        else:
            res.append(entry(p, type(v).__name__, vals=[str(v)[:60]]))
    return res


def normal(n):
    """units of a generated value as astropy writes them"""
    n = dict(n, unit=u.Unit(n["unit"]).to_string() if n["unit"] else "", kids=[normal(x) for x in n["kids"]])
    n["cols"] = [dict(c, unit=unit(c["unit"]), kind="float" if n["m"] and c["unit"] and c["kind"] == "int" else c["kind"]) for c in n["cols"]]
    n["meta"] = [dict(m, unit=unit(m["unit"])) for m in n["meta"]]
    return n


def record(case):
    ev = [{"ev": "Reset"}]
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "out.h5")
        try:
            for i, put in enumerate(case["puts"]):
                append = put["append"] and i > 0
                ev.append({"ev": "Open", "append": int(append)})
                with HDF5Output(f, append=append) as out:
                    d = {n["name"]: build(n) for n in put["nodes"]}
                    if i % 2:
                        out.store_dictionary(d, put["g"])
                    else:
                        out.create_group(put["g"]).store_dictionary(d)
                ev.append({"ev": "Put", "g": put["g"], "nodes": [normal(n) for n in put["nodes"]]})
                with h5py.File(f, "r") as fd:
                    for g in ("g1", "g2"):
                        ev.append({"ev": "Get", "g": g, "entries": entries([], load(fd[g])) if g in fd else []})
                    again = load(fd[put["g"]])
            with HDF5Output(f + ".2") as out:
                out.store_dictionary(again, "copy")
            with h5py.File(f + ".2", "r") as fd:
                ev.append({"ev": "Copy", "g": put["g"], "entries": entries([], load(fd["copy"]))})
        except Exception as ex:
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex)})
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Get":
            for x in e["entries"]:
                if x["k"] == "num" and x["vals"]:
                    x["vals"][0] += "1"
                    return r
    return r[:1] + [{"ev": "Crash", "error": "none"}]


def check(ctx):
    ctx.mc("StoreMC", expect_actions=["Create", "Reopen", "Put"])
    cases = ctx.pick("store", lambda: ctx.gen("StoreGen", cfg="StoreGenThorough.cfg" if ctx.thorough else "StoreGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record)
    ctx.samples = recs[:2]
    bad = ctx.validate("StoreTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("StoreTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "store")
