"""C19: description files of OptionsGen parsed by the real LoadOptions, checked
against Options.tla."""
import os
import pickle  # noqa: F401
import shutil
import tempfile
from collections import OrderedDict
from decimal import Decimal

import exo
import numpy as np
from astropy import units as u

import payload as P

exo.quiet()
FILES = ["f1", "f2", "f3"]


def dirs(d):
    return {"<P%d>" % k: os.path.join(d, "conf%d" % k) for k in (1, 2, 3)}


def write_tables(D):
    for pi, (tok, path) in enumerate(sorted(D.items())):
        os.makedirs(path, exist_ok=True)
        for fi, f in enumerate(FILES):
            k = 10 * (pi + 1) + fi + 1
            n = 2 + fi
            cols = {"Wavelength": [1.0 + i for i in range(n)], "id": [k] * n}
            p = os.path.join(path, f)
            if fi == 1:
                with open(p, "w") as h:
                    h.write("Wavelength,id\n" + "".join("%s,%s\n" % x for x in zip(cols["Wavelength"], cols["id"])))
            else:
                P.write_table(p, cols, {"Wavelength": "micron"})


def real(chars, D):
    return "".join("__ConfigPath__" if c == "@" else D.get(c, c) for c in chars)


def xml(doc, D):
    out, depth = ["<root>"], 1
    pretty, com = doc["fmt"] & 1, doc["fmt"] & 2
    ev = doc["events"]
    for i, e in enumerate(ev):
        nl = "\n" + "  " * depth if pretty else ""
        if not e["o"]:
            depth -= 1
            if out[-1] is None:
                out.pop()
            else:
                out.append((("\n" + "  " * depth) if pretty else "") + "</%s>" % stack_tag.pop())
            continue
        a = "".join(' %s="%s"' % kv for kv in (e["attrs"] or {}).items()) if e["attrs"] else ""
        text = real(e["text"], D)
        if i == 0:
            stack_tag = []
        if not text and not ev[i + 1]["o"]:
            out.append(nl + "<%s%s/>" % (e["tag"], a))
            out.append(None)
        else:
            out.append(nl + "<%s%s>" % (e["tag"], a) + text + ("<!-- 5 -->" if com and text else ""))
            stack_tag.append(e["tag"])
        depth += 1
    return "".join(o for o in out if o) + ("\n" if pretty else "") + "</root>\n"


def ten(v):
    d = Decimal(repr(float(v)))
    if d == 0:
        return 0, 0
    sign, digits, exp = d.as_tuple()
    m = int("".join(map(str, digits)))
    while m % 10 == 0:
        m, exp = m // 10, exp + 1
    if m > 2000000000:
        return -999, -999
    return (-m if sign else m), exp


def chars(s, D):
    out, i = [], 0
    while i < len(s):
        tok = next((t for t, p in D.items() if s.startswith(p, i)), None)
        if tok:
            out.append(tok)
            i += len(D[tok])
        else:
            out.append(s[i])
            i += 1
    return out


def value(v, D):
    if isinstance(v, (bool, np.bool_)):
        return {"k": "bool", "m": int(v)}
    if isinstance(v, u.Quantity):
        m, e = ten(v.value)
        return {"k": "qty", "m": m, "e": e, "unit": next((x for x in ("", "micron", "s", "deg", "count/s") if u.Unit(x) == v.unit), str(v.unit))}
    if isinstance(v, (int, np.integer)):
        return {"k": "int", "m": int(v)}
    if isinstance(v, (float, np.floating)):
        m, e = ten(v)
        return {"k": "float", "m": m, "e": e}
    if isinstance(v, str):
        return {"k": "text", "t": chars(v, D)}
    return {"k": "other", "type": type(v).__name__}


def table(t, D):
    try:
        k = int(t["id"][0])
        tok, f = "<P%d>" % (k // 10), FILES[k % 10 - 1]
        n = 1 + k % 10
        ok = list(t.colnames) == ["Wavelength", "id"] and len(t) == n and all(int(x) == k for x in t["id"]) and \
            [float(x) for x in t["Wavelength"]] == [1.0 + i for i in range(n)] and \
            str(t["Wavelength"].unit) == ("None" if f == "f2" else "micron")
        return [tok, "/", "f", f[1]] if ok else ["damaged " + str(t.colnames)]
    except Exception as ex:
        return ["unreadable %s" % ex]


def item(d, D, key=None):
    r = {"attrs": {}, "val": {"k": "none"}, "sub": {}, "data": []}
    for k, v in d.items():
        if k == "value":
            r["val"] = value(v, D)
        elif k == "data":
            r["data"] = table(v, D)
        elif isinstance(v, str):
            r["attrs"][k] = v
        elif isinstance(v, OrderedDict):
            r["sub"][k] = {"many": 1, "items": [item(x, D, kk) for kk, x in v.items()]}
        else:
            r["sub"][k] = {"many": 0, "items": [item(v, D)]}
    for k in ("attrs", "sub"):
        r[k] = r[k] or []
    if key is not None:
        r["key"] = value(key, D)
    return r


def faulty(doc):
    ev = list(doc["events"])
    leaf = lambda t, x: [{"o": 1, "tag": t, "attrs": [], "text": x}, {"o": 0}]
    if doc["fault"] == "data":
        ev += [{"o": 1, "tag": "table", "attrs": [], "text": [" "]}] + leaf("datafile", ["<P1>", "/", "nofile"]) + [{"o": 0}]
    if doc["fault"] == "type":
        ev += [{"o": 1, "tag": "table", "attrs": [], "text": [" "]}] + leaf("datafile", ["<P1>", "/", "f1"]) + \
            leaf("datatype", ["f", "i", "t", "s"]) + [{"o": 0}]
    return dict(doc, events=ev)


def listed(ask, d):
    from exorad.tasks import GetChannelList, LoadOptions
    write = {"as is": str, "lower": str.lower, "upper": str.upper}
    p = os.path.join(d, "channels.xml")
    with open(p, "w") as f:
        f.write("<root> <ConfigPath> %s </ConfigPath>\n%s</root>" % (d, "".join(
            "<channel> %s <channelClass> %s </channelClass> </channel>\n" % (c["name"], write[c["style"]](c["base"])) for c in ask["chans"])))
    with exo.hush():
        got = GetChannelList()(options=LoadOptions()(filename=p), channel_type=write[ask["style"]](ask["base"]))
    return {"ev": "Listed", "asked": ask, "got": [str(x) for x in got]}


def record(case):
    from exorad.tasks import LoadOptions
    d = tempfile.mkdtemp(prefix="opt", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    D = dirs(d)
    try:
        try:
            write_tables(D)
            parser = None
            for k, doc in enumerate(case["docs"]):
                if parser is None or not doc["same"]:
                    parser = LoadOptions()
                doc = faulty(doc)
                p = os.path.join(d, "file%d.%s" % (k, "txt" if doc["fault"] == "ext" else "xml"))
                if doc["fault"] != "missing":
                    with open(p, "w") as f:
                        f.write(xml(doc, D))
                kw = {"config_path": real(doc["forced"], D)} if doc["forced"] else {}
                try:
                    with exo.hush():
                        res = parser(filename=p, **kw)
                except OSError:
                    ev.append({"ev": "Refused" if doc["fault"] else "Crash", "error": "OSError"})
                    continue
                if doc["fault"]:
                    ev.append({"ev": "Refused", "error": "parsed"})
                    continue
                ev.append({"ev": "Start", "path": doc["forced"]})
                for e in doc["events"]:
                    ev.append({"ev": "Open", "tag": e["tag"], "attrs": e["attrs"] or [], "text": e["text"]} if e["o"] else {"ev": "Close"})
                ev.append({"ev": "Parsed", "result": item(res, D)})
            ev.append(listed(case["listing"], d))
        except Exception as ex:
            import traceback
            ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-800:]})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    for e in r:
        if e["ev"] == "Parsed":
            e["result"]["sub"]["ConfigPath"]["items"][0]["val"]["t"].append("x")
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("OptionsMC", expect_actions=["MStart", "MOpen", "MPath", "MClose", "MFinish"])
    cases = ctx.pick("options", lambda: ctx.gen("OptionsGen", cfg="OptionsGenThorough.cfg" if ctx.thorough else "OptionsGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record)
    ctx.samples = recs[:2]
    bad = ctx.validate("OptionsTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("OptionsTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "options")
