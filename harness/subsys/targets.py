"""C22: target lists of TargetListGen read by the real code, checked against
TargetList.tla."""
import os
import shutil
import tempfile
import zipfile

import exo
import numpy as np
from astropy import units as u
from astropy.table import Column, QTable

exo.quiet()
MISSING = -999
TEXTS = ["Alpha", "beta Cen", "HD 1", "55 Cnc", "a,b", "K2-18 b", "x", "Kepler-1", "Ab"]
RAW = ["M_sun", "K", "R_sun", "pc", "lyr", "L_sun", "cm/s2", "deg", "M_jup", "R_earth", "AU", "d", "R_jup", "m", "s", "Gyr"]
MRS = ["R_sun", "M_sun", "R_earth", "M_earth", "R_jupiter", "M_jupiter", "day", "K", "pc", "m", "s", "Gyr"]


def header(f, c):
    unit = " [%s]" % c["unit"] if c["unit"] else ""
    if c["side"] == "other":
        return c["word"] + unit
    if f == "mrs":
        return "%s %s%s%s" % (c["side"].title(), c["word"].title(), " Error Upper" if c["error"] else "", unit)
    return "%s %s%s" % (c["side"], c["word"], unit)


def cell(case, c, x):
    if x == MISSING:
        return ""
    if c["kind"] == "text":
        t = TEXTS[x - 1]
        return '"%s"' % t if "," in t else t
    if case["format"] == "mrs" and case["comma"] and c["side"] != "other":
        return '"%d,%d"' % (x // 10, x % 10)
    return str(x // 10) if x % 10 == 0 else "%d.%d" % (x // 10, x % 10)


def write_csv(case, p):
    with open(p, "w") as f:
        f.write(",".join(header(case["format"], c) for c in case["columns"]) + "\n")
        for r in case["rows"]:
            f.write(",".join(cell(case, c, x) for c, x in zip(case["columns"], r)) + "\n")


def table(case):
    t = QTable()
    for k, c in enumerate(case["columns"]):
        n = header("table", dict(c, unit=""))
        vals = [r[k] for r in case["rows"]]
        if c["kind"] == "text":
            t[n] = np.array([TEXTS[x - 1] for x in vals]) if vals else np.array([], dtype="U5")
        elif c["unit"]:
            t[n] = np.array([x / 10.0 for x in vals]) * u.Unit(c["unit"])
        else:
            t[n] = Column([x / 10.0 for x in vals])
    return t


def write_xlsx(case, p):
    """the smallest workbook: one sheet, shared strings"""
    strings, cells = [], {}

    def s(x):
        if x not in strings:
            strings.append(x)
        return strings.index(x)

    def put(r, c, x):
        ref = (chr(65 + c) if c < 26 else "A" + chr(65 + c - 26)) + str(r + 1)
        cells.setdefault(r, []).append((c, '<c r="%s" t="s"><v>%d</v></c>' % (ref, s(x)) if isinstance(x, str)
                                        else '<c r="%s"><v>%r</v></c>' % (ref, x)))
    place = list(range(1, 7)) + list(range(8, 19)) + [20]
    put(0, 0, "targets")
    for k, (c, col) in enumerate(zip(case["columns"], place)):
        put(2, col, "Star Name" if k == 0 else "Planet Name" if k == 6 else c["word"])
        if c["unit"]:
            put(3, col, "[%s]" % c["unit"] if k % 2 else c["unit"])
        for i, r in enumerate(case["rows"]):
            put(4 + i, col, TEXTS[r[k] - 1] if c["kind"] == "text" else r[k] / 10.0)
    put(3, 0, "units")
    ns = 'xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"'
    rel = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
    pk = "http://schemas.openxmlformats.org/package/2006/"
    esc = lambda x: x.replace("&", "&amp;").replace("<", "&lt;")
    ct = "application/vnd.openxmlformats-officedocument.spreadsheetml."
    files = {
        "[Content_Types].xml": '<Types xmlns="%scontent-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>'
        '<Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="%ssheet.main+xml"/>'
        '<Override PartName="/xl/worksheets/sheet1.xml" ContentType="%sworksheet+xml"/><Override PartName="/xl/sharedStrings.xml" ContentType="%ssharedStrings+xml"/></Types>' % (pk, ct, ct, ct),
        "_rels/.rels": '<Relationships xmlns="%srelationships"><Relationship Id="r1" Type="%s/officeDocument" Target="xl/workbook.xml"/></Relationships>' % (pk, rel),
        "xl/workbook.xml": '<workbook %s xmlns:r="%s"><sheets><sheet name="Sheet1" sheetId="1" r:id="r1"/></sheets></workbook>' % (ns, rel),
        "xl/_rels/workbook.xml.rels": '<Relationships xmlns="%srelationships"><Relationship Id="r1" Type="%s/worksheet" Target="worksheets/sheet1.xml"/>'
        '<Relationship Id="r2" Type="%s/sharedStrings" Target="sharedStrings.xml"/></Relationships>' % (pk, rel, rel),
        "xl/worksheets/sheet1.xml": '<worksheet %s><sheetData>%s</sheetData></worksheet>' % (ns, "".join(
            '<row r="%d">%s</row>' % (r + 1, "".join(x for _, x in sorted(cs))) for r, cs in sorted(cells.items()))),
        "xl/sharedStrings.xml": '<sst %s count="%d" uniqueCount="%d">%s</sst>' % (ns, len(strings), len(strings), "".join(
            "<si><t>%s</t></si>" % esc(x) for x in strings)),
    }
    with zipfile.ZipFile(p, "w") as z:
        for k, v in files.items():
            z.writestr(k, '<?xml version="1.0" encoding="UTF-8"?>\n' + v)


def tenths(x):
    v = float(x) * 10
    return int(round(v)) if v == v and abs(v) < 2e8 and abs(v - round(v)) < 1e-6 else -12345


def enc(v, units):
    if v is np.ma.masked or (np.ma.isMaskedArray(v) and np.all(np.ma.getmaskarray(v))):
        return {"k": "missing"}
    if isinstance(v, u.Quantity):
        n = next((x for x in units if u.Unit(x) == v.unit), str(v.unit))
        return {"k": "qty", "v": tenths(v.value), "unit": n} if v.isscalar else {"k": "array"}
    if isinstance(v, str):
        return {"k": "text", "v": TEXTS.index(v) + 1 if v in TEXTS else -1}
    try:
        return {"k": "num", "v": tenths(v)}
    except (TypeError, ValueError):
        return {"k": "other " + type(v).__name__}


def body(t, units):
    return {k: enc(v, units) for k, v in t.__dict__.items() if not k.startswith("_")} or []


def record(case):
    from exorad.tasks import LoadTargetList
    d = tempfile.mkdtemp(prefix="tgt", dir=os.environ.get("VERIF_HOME"))
    f = case["format"]
    ev = [{"ev": "Reset"}, {"ev": "Header", "format": f, "columns": case["columns"]}]
    units = MRS if f == "mrs" else RAW
    try:
        bad_ext = case["ext"] and f != "table"
        p = os.path.join(d, "list" + (case["ext"] if bad_ext else ".xlsx" if f == "xlsx" else ".csv"))
        src = p
        if f == "table":
            src = table(case)
        else:
            (write_xlsx if f == "xlsx" else write_csv)(case, p)
        try:
            with exo.hush():
                tl = LoadTargetList()(target_list=src)
                res = tl.target
        except OSError:
            if bad_ext:
                return ev + [{"ev": "Unsupported", "error": "OSError"}]
            raise
        except TypeError as ex:
            if f == "table":
                return ev + [{"ev": "Refused", "error": "TypeError"}]
            raise
        if bad_ext:
            return ev + [{"ev": "Unsupported", "error": "a list"}]
        for i, r in enumerate(case["rows"]):
            if i < len(res):
                t = res[i]
                got = [{"id": int(t.id), "name": enc(t.name, units), "star": body(t.star, units),
                        "planet": body(t.planet, units) if hasattr(t, "planet") else []}]
            else:
                got = []
            ev.append({"ev": "Row", "cells": r, "target": got})
        ev.append({"ev": "End", "count": len(res)})
        for q in case["queries"]:
            ev.append({"ev": "Searched", "query": q, "found": [int(t.id) for t in tl.searchTarget("".join(q))]})
    except Exception as ex:
        import traceback
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-800:]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Row":
            e["target"][0]["id"] += 1
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("TargetListMC", expect_actions=["MHeader", "MRow", "MReject"])
    cases = ctx.pick("targets", lambda: ctx.gen("TargetListGen", cfg="TargetListGenThorough.cfg" if ctx.thorough else "TargetListGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record)
    ctx.samples = recs[:2]
    bad = ctx.validate("TargetListTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("TargetListTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "targets")
