"""C34: command lines of CommandGen given to the real command in a process of its own, some after
each other in one place; how it ended, what it showed, who observed and every file it left are
checked against Command.tla."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import exo  # noqa: F401
import numpy as np

import payload as P

LONG = {"p": "payload", "t": "targetList", "o": "output", "c": "full_contrib", "n": "nThreads", "d": "debug", "l": "log", "P": "plot", "help": "help"}
STARS = {"few": ["s 1", "s 2"], "more": ["s 2", "t", "u 3"]}
ELEMENTS = {"one": ["glass", "mirror"], "two": ["lens"]}
# the command, with a note of who observes left in a file
MAIN = """
import os, sys
sys.argv[0] = "exorad"
from exorad import tasks
real = tasks.LoadSource.execute
def execute(self):
    with open(os.environ["VERIF_PIDS"], "a") as f:
        f.write("%d\\n" % os.getpid())
    return real(self)
tasks.LoadSource.execute = execute
from exorad.exorad import main
sys.exit(main())
"""
world = {}


def star(n):
    return P.star(n, Teff=5000 + 100 * sum(n.encode()) % 1500, D=20)


def describe(d, name):
    psf = P.write_psf(os.path.join(d, "psf.fits"))
    opt = P.T("optics", " ", None, P.T("Atel", "1.0", "m**2"))
    if name == "one":
        els = [P.T("opticalElement", "glass", None, P.T("type", "filter"), P.T("transmission", "0.5", ""), P.T("temperature", "100", "K"), P.T("emissivity", "0.1", "")),
               P.T("opticalElement", "mirror", None, P.T("type", "surface"), P.T("temperature", "90", "K"), P.T("reflectivity", "0.9", ""), P.T("emissivity", "0.05", ""))]
        kids = [P.T("foreground", "zodiacal", None, P.T("zodiacalMap", "False"), P.T("zodiacFactor", "2.0"))]
        chans = [P.photometer("wide", 1.5, 3.0, psf=psf, optics=els), P.spectrometer(d, "slow", 3.0, 5.0, psf=psf, R=8, optics=els)]
    else:
        els = [P.T("opticalElement", "lens", None, P.T("type", "surface"), P.T("transmission", "0.8", ""), P.T("temperature", "80", "K"), P.T("emissivity", "0.1", ""))]
        kids, chans = [], [P.photometer("narrow", 2.0, 2.5, psf=psf, optics=els)]
    return P.root(d, P.common(d, kids=kids), opt, chans, name + ".xml")


def digest(q):
    h = hashlib.sha1()
    for n in sorted(q.keys()):
        if not n.replace("_noise", "").endswith(" signal") and not n.startswith("instrument_signal"):
            v = q[n]
            v = [("%.6g" % x if isinstance(x, float) else str(x.decode() if isinstance(x, bytes) else x)) for x in np.asarray(getattr(v, "value", v)).tolist()]
            h.update(json.dumps([n, str(getattr(q[n], "unit", None) or ""), v]).encode())
    return h.hexdigest()


def know():
    """the files commands start from, and the tables the interface gives for them; once per process"""
    if world:
        return world
    from exorad.tasks import BuildChannels, LoadOptions, LoadTargetList, ObserveTarget, PreparePayload
    d = os.path.join(tempfile.mkdtemp(prefix="world", dir=os.environ.get("VERIF_HOME")), "in")
    os.makedirs(d)
    tables = {}
    with exo.hush():
        for name in ("one", "two"):
            x = describe(d, name)
            pay = LoadOptions()(filename=x)
            chans = BuildChannels()(payload=pay, write=False, output=None)
            rows = [star(n) for n in sorted(set(STARS["few"] + STARS["more"]))]
            for t in P.targets(rows):
                q = ObserveTarget()(target=t, payload=pay, channels=chans, wl_range=P.wl_range(pay)).table
                tables[name, t.name] = digest(q)
        PreparePayload()(payload_file=os.path.join(d, "one.xml"), output=os.path.join(d, "built.h5"))
    for l, ns in STARS.items():
        P.targets([star(n) for n in ns], fname=os.path.join(d, l + ".csv"))
    hashes = {}
    for f in os.listdir(d):
        with open(os.path.join(d, f), "rb") as g:
            hashes[hashlib.sha1(g.read()).hexdigest()] = f
    world.update(dir=d, tables=tables, hashes=hashes)
    return world


def file(**k):
    return dict({"kind": "odd", "of": "", "on": "", "targets": [], "full": 0, "n": 0}, **k)


def result(path, w):
    """an output file, as the specification has it"""
    import h5py
    from astropy.io.misc.hdf5 import read_table_hdf5
    out = file(kind="result")
    with h5py.File(path, "r") as f:
        if "payload" in f:
            names = set(f["payload"]["channels"])
            out["of"] = "one" if names == {"wide", "slow"} else "two" if names == {"narrow"} else "odd"
        full = set()
        for n in f.get("targets", {}):
            q = read_table_hdf5(f["targets"][n]["table"], path="table")
            chs = {c.decode() if isinstance(c, bytes) else str(c) for c in q["chName"]}
            out["on"] = "one" if chs == {"wide", "slow"} else "two" if chs == {"narrow"} else "odd"
            cols = {c for c in q.keys() if c.endswith(" signal") or c == "instrument_signal"}
            full.add(0 if cols == {"instrument_signal"} else 1 if cols == {e + " signal" for e in ELEMENTS.get(out["on"], [])} else -1)
            out["targets"].append({"name": n, "token": int(digest(q) == w["tables"].get((out["on"], n)))})
        out["full"] = full.pop() if len(full) == 1 else -1
    return out


def look(d, w, logs):
    out = []
    for base, _, names in os.walk(d):
        for n in sorted(names):
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                body = f.read()
            at = [os.path.relpath(base, d), n]
            was = w["hashes"].get(hashlib.sha1(body).hexdigest())
            if was in ("one.xml", "two.xml"):
                x = file(kind="payload", of=was[:3])
            elif was == "built.h5":
                x = file(kind="built", of="one")
            elif was in ("few.csv", "more.csv"):
                x = file(kind="list", of=was[:-4])
            elif was:
                continue        # data files of the instruments
            elif body[:8] == b"\x89HDF\r\n\x1a\n":
                x = result(p, w)
            elif body[:8] == b"\x89PNG\r\n\x1a\n":
                x = file(kind="plot", of=n[:-4])
            elif n.endswith(".log"):
                text = body.decode(errors="replace")
                if text != logs[0]:
                    grew = text.startswith(logs[0]) and (" - DEBUG - " in text[len(logs[0]):] or " - ERROR - " in text[len(logs[0]):])
                    logs[0], logs[1] = text, logs[1] + 1 if grew else -99
                x = file(kind="log", n=logs[1])
            else:
                x = file()
            out.append(dict(x, at=at))
    return out


def path(v):
    return v[1] if v[0] == "." else "/".join(v)


def write(words):
    out = []
    for i, w in enumerate(words):
        o, f = w["opt"], w["form"]
        if o == "bad":
            out += w["val"]
        elif o in "pton":
            v = w["val"][0] if o == "n" else path(w["val"])
            out += {"short": ["-" + o, v], "joined": ["-" + o + v], "long": ["--" + LONG[o], v], "equals": ["--%s=%s" % (LONG[o], v)]}[f]
        elif f == "long":
            out.append("--" + LONG[o])
        elif f == "bundle" and i and words[i - 1]["form"] == "bundle":
            out[-1] += o            # flags written together
        else:
            out.append("-" + o[0])
    return out


def give(d, args, pids):
    env = dict(os.environ, VERIF_PIDS=pids, MPLBACKEND="Agg", PYTHONWARNINGS="ignore")
    repo = os.environ.get("VERIF_REPO", "/repo")
    env["PYTHONPATH"] = repo + os.pathsep + env.get("PYTHONPATH", "")
    p = subprocess.Popen([sys.executable, "-c", MAIN] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    text, _ = p.communicate(timeout=300)
    who = []
    if os.path.exists(pids):
        with open(pids) as f:
            who = [int(x) for x in f.read().split()]
        os.remove(pids)
    code = p.returncode
    usage = "usage:" in text
    end = "ok" if code == 0 and not usage else "help" if code == 0 else "refused" if code == 2 and usage else "failed" if code > 0 else "killed"
    return {"ev": "Ended", "end": end,
            "screen": {"debug": int(" - DEBUG - " in text), "info": int(" - INFO - " in text), "usage": int(usage)},
            "workers": {"main": sum(x == p.pid for x in who), "others": len({x for x in who if x != p.pid})}}, text


def record(case):
    d = tempfile.mkdtemp(prefix="cmd", dir=os.environ.get("VERIF_HOME"))
    ev = [{"ev": "Reset"}]
    try:
        w = know()
        shutil.copytree(w["dir"], os.path.join(d, "in"))
        logs = ["", 0]
        ev.append({"ev": "Disk", "files": look(d, w, logs)})
        for k, words in enumerate(case["lines"]):
            ev.append({"ev": "Command", "words": words})
            e, text = give(d, write(words), os.path.join(os.path.dirname(d), os.path.basename(d) + ".pids"))
            e["files"] = look(d, w, logs)
            e["args"] = " ".join(write(words))
            if e["end"] in ("failed", "killed"):
                e["text"] = re.sub(r"/\S*/", "", text)[-400:]
            ev.append(e)
    except Exception as ex:
        import traceback
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-1500:]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Ended" and e["end"] == "ok":
            e["screen"]["debug"] = 1 - e["screen"]["debug"]
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("CommandMC", expect_actions=["MLay", "MStart", "MRead", "MSettle", "MRun", "MFail"])
    cases = ctx.pick("commands", lambda: ctx.gen("CommandGen", cfg="CommandGenThorough.cfg" if ctx.thorough else "CommandGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=900)
    ctx.samples = recs[:2]
    ends = [e["end"] for r in recs for e in r if e["ev"] == "Ended"]
    ctx.notes["commands"] = {k: ends.count(k) for k in sorted(set(ends))}
    bad = ctx.validate("CommandTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("CommandTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "commands")
