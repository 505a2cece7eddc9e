"""C21: what reaches the screen and the log files, against LogLevels.tla."""
import logging
import os
import re
import shutil
import tempfile
import traceback

import exo

from subsys import observe as O

LEVELS = [10, 20, 30, 40, 50]
FULL = {"has": ["D", "R", "M", "Teff"], "lack": 0}
TGTS = [dict(FULL, kind=1), dict(FULL, kind=3), {"has": ["D", "M", "Teff"], "lack": 0, "kind": 1}, {"has": ["D", "R", "Teff"], "lack": 0, "kind": 3}]
PAY = {"R": 61, "frgs": ["dust"], "source": "planck", "needs": [], "chans": ["phot", "spec"], "cnoise": 1, "zmap": 0, "force": "False"}


class All(logging.Handler):
    """every message that is emitted, also in child processes"""

    def __init__(self, f):
        super().__init__(level=0)
        self.f = f

    def emit(self, record):
        with open(self.f, "a") as h:
            h.write("%d %s\n" % (record.levelno, first(record.getMessage())))


def first(text):
    return (text.splitlines() or [""])[0].rstrip()


class Tail:
    """what was appended to a file since last asked"""

    def __init__(self, f, pos=0):
        self.f, self.pos = f, pos

    def lines(self):
        if not os.path.exists(self.f):
            return []
        with open(self.f, errors="replace") as h:
            h.seek(self.pos)
            t = h.read()
            self.pos = h.tell()
        return t.splitlines()


def count(lines, lev, text):
    name = logging.getLevelName(lev)
    return sum(1 for x in lines if x.rstrip().endswith(text) and re.search(r"\b%s\b" % name, x[:len(x.rstrip()) - len(text)]))


def messages(emitted, screen, files, ts):
    """messages of one call, by level and phase"""
    recs = []
    for x in emitted:
        lev, text = x.split(" ", 1) if " " in x else (x, "")
        recs.append((int(lev), text))
    failed = ["T%d" % t for t in ts if t > 2]
    last, untold = {}, []
    for t in failed:
        idx = [i for i, (lev, text) in enumerate(recs) if re.search(r"\b%s\b" % t, text)]
        if not idx or recs[idx[-1]][0] < 30:
            untold.append(t)
        else:
            last[recs[idx[-1]]] = 1
    begin = next((i for i, (lev, text) in enumerate(recs) if any(re.search(r"\bT%d\b" % t, text) for t in ts)), 0)
    early = set(recs[:begin])
    distinct = {}
    for r in recs:
        distinct[r] = distinct.get(r, 0) + 1
    usable = [r for r in distinct if len(r[1]) > 6 and r not in early]
    usable = [r for r in usable if not any(s != r and s[1].endswith(r[1]) for s in distinct)]
    out = {}
    for r in usable:
        n = distinct[r]
        key = ("skip" if r in last else "while", r[0])
        m = out.setdefault(key, {"phase": key[0], "lev": key[1], "n": 0, "missing": 0, "shown": 0, "twice": 0,
                                 "files": [{"f": f, "missing": 0, "twice": 0} for f in files]})
        m["n"] += n
        s = count(screen, *r)
        m["missing"] += s < n
        m["shown"] += s > 0
        m["twice"] += s > n
        for q in m["files"]:
            c = count(files[q["f"]], *r)
            q["missing"] += c < n
            q["twice"] += c > n
    return [out[k] for k in sorted(out)], untold


def history(case, d):
    from exorad import log
    from exorad.log.logger import root_logger
    from exorad.log import Logger

    class Tester(Logger):
        pass
    case = dict(case, pays=[PAY], tgts=TGTS)
    os.chdir(d)
    O.write_payload(case, 1, d)
    xml = os.path.join(d, "p1", "payload.xml")
    root_logger.handlers[0].setLevel(logging.CRITICAL)
    pay, (chans, rng) = None, (None, None)
    pay, built = O.prepare(d, 1)
    chans = built[0] if isinstance(built, tuple) else built
    import payload as P
    rng = P.wl_range(pay)
    root_logger.handlers[0].setLevel(logging.INFO)
    scr = os.path.join(d, "screen.txt")
    root_logger.handlers[0].stream = open(scr, "a", buffering=1)
    al = os.path.join(d, "all.txt")
    root_logger.addHandler(All(al))
    screen, emitted = Tail(scr), Tail(al)
    fname = {1: os.path.join(d, "exorad.log"), 2: os.path.join(d, "b.log"), 3: os.path.join(d, "c.log")}
    files = {}
    ev = [{"ev": "Reset"}]
    tester = Tester()
    from exorad.exorad import standard_pipeline
    from exorad.tasks import ObserveTargetlist
    for k, o in enumerate(case["ops"]):
        e = {"ev": o["op"], "x": o["x"], "debug": o["debug"], "out": "ok", "msgs": [], "untold": []}
        new = []
        try:
            with exo.hush():
                if o["op"] == "Set":
                    log.setLogLevel(o["x"])
                elif o["op"] == "Disable":
                    log.disableLogging()
                elif o["op"] == "Enable":
                    log.enableLogging()
                elif o["op"] == "AddFile":
                    new = [o["x"]]
                    if o["x"] == 1:
                        log.addLogFile()
                    else:
                        log.addLogFile(fname[o["x"]])
                elif o["op"] == "Observe":
                    objs = O.load_targets(case, d, o["ts"])
                    ObserveTargetlist()(targets=[objs[t] for t in o["ts"]], payload=pay, channels=chans, wl_range=rng, plot=bool(o["plot"]), out_dir=d,
                                        n_thread=o["n"], debug=bool(o["debug"]))
                elif o["op"] == "Pipeline":
                    new = [o["x"]] if o["x"] else []
                    f = os.path.join(d, "list.csv")
                    O.write_list(case, o["ts"], f)
                    standard_pipeline(options=xml, target_list=f, output=None, n_thread=o["n"], debug=bool(o["debug"]),
                                      log={0: False, 1: True, 2: fname[2]}[o["x"]])
        except Exception as ex:
            e["out"] = "%s: %s" % (type(ex).__name__, str(ex)[:200])
        for f in new:
            files.setdefault(f, Tail(fname[f]))
        shown, em, infile = screen.lines(), emitted.lines(), {f: files[f].lines() for f in files}
        if o["ts"]:
            e["msgs"], e["untold"] = messages(em, shown, infile, o["ts"])
        for h in LEVELS:
            getattr(tester, logging.getLevelName(h).lower())("test message %d of call %d", h, k)
        shown, _, infile = screen.lines(), emitted.lines(), {f: files[f].lines() for f in files}
        e["seen"] = [h for h in LEVELS for i in range(count(shown, h, "test message %d of call %d" % (h, k)))]
        e["infile"] = [{"f": f, "n": sum(count(infile[f], h, "test message %d of call %d" % (h, k)) for h in LEVELS)} for f in files]
        ev.append(e)
    return ev


def record(case):
    import multiprocessing
    multiprocessing.current_process()._config["daemon"] = False
    d = tempfile.mkdtemp(prefix="log", dir=os.environ.get("VERIF_HOME"))
    try:
        return O.forked(history, case, d)
    except Exception as ex:
        return [{"ev": "Reset"}, {"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-1500:]}]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r):
    for e in r[1:]:
        if e["ev"] != "Enable" and "seen" in e:
            e["seen"] = [50] if e["seen"] != [50] else [40, 50]
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("LogLevelsMC", expect_actions=["Set", "Disable", "Enable", "AddFile", "Observe", "Pipeline"])
    cases = ctx.pick("loglevels", lambda: ctx.gen("LogLevelsGen", cfg="LogLevelsGenThorough.cfg" if ctx.thorough else "LogLevelsGen.cfg",
                                                  simulate=ctx.size(80, 1500), depth=20))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=300)
    ctx.samples = recs[:2]
    bad = ctx.validate("LogLevelsTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("LogLevelsTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "loglevels")
