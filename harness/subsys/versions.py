"""C35: changelogs, installed versions and troubles of the network of VersionCheckGen put before the
real version check, by calling it or by importing the package again; what was told, how it ended,
whose changelog was asked for and what became of the sockets of others are checked against
VersionCheck.tla. Nothing leaves the process: connections and requests are stand-ins."""
import base64
import contextlib
import importlib
import io
import json
import logging
import re
import socket

import exo  # noqa: F401
import exorad
import requests
from exorad.__version__ import __version__ as OWN
from exorad.utils import version_control

HOME = "ExObsSim/ExoRad2-public"


def write(x, n):
    v = OWN if x["v"] == "own" else x["v"]
    if x["k"] == "head":
        return "## [%s]" % v + {"dated": " - 2024-01-%02d" % n, "bare": "", "after": " - after [%s]" % (OWN if x["w"] == "own" else x["w"])}[x["how"]]
    if x["k"] == "unreleased":
        return "## [Unreleased]"
    if x["k"] == "empty":
        return ""
    body = {"plain": "- item%d of %s", "brackets": "- item%d, see [%s]", "heading": "### item%d %s", "unicode": "- item%d – Ångström %s"}[x["how"]]
    return body % (n, v)


@contextlib.contextmanager
def world(case, asked):
    """sockets that connect or not, and a site that answers or not"""
    class Socket(socket.socket):
        def connect(self, address):
            if not case["reach"]:
                raise OSError(101, "Network is unreachable")

        def connect_ex(self, address):
            return 0 if case["reach"] else 101
    text = "\n".join(write(x, n) for n, x in enumerate(case["lines"], 1)) + "\n"
    b64 = base64.encodebytes(text.encode("utf-8")).decode()
    a = case["answer"]

    def send(self, request, **kw):
        asked.append(request.url)
        if a == "refused":
            raise requests.exceptions.ConnectionError("refused")
        if a == "timeout":
            raise requests.exceptions.ReadTimeout("slow")
        if a == "cut":
            raise requests.exceptions.ChunkedEncodingError("cut")
        r = requests.Response()
        r.status_code = int(a) if a.isdigit() else 200
        r.url, r.request, r.encoding = request.url, request, "utf-8"
        body = {"log": {"name": "CHANGELOG.md", "content": b64, "encoding": "base64"}, "list": [], "nocontent": {"message": "none"}, "null": {"content": None}, "notbase64": {"content": "abcde"}}.get(a, {"message": "Not Found"})
        r._content = b"<html>" if a == "notjson" else json.dumps(body).encode()
        r._content_consumed = True
        return r
    old = socket.socket, requests.adapters.HTTPAdapter.send, socket.getdefaulttimeout()
    socket.socket, requests.adapters.HTTPAdapter.send = Socket, send
    try:
        yield
    finally:
        socket.socket, requests.adapters.HTTPAdapter.send = old[:2]
        socket.setdefaulttimeout(old[2])


class Ear(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.heard = []

    def emit(self, record):
        self.heard.append(record.getMessage())


def once(case):
    ear, asked = Ear(), []
    log = logging.getLogger("exorad")
    log.addHandler(ear)
    end, why = "ok", ""
    with world(case, asked):
        before = float(case["wait"]) or None
        socket.setdefaulttimeout(before)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                if case["by"] == "import":
                    importlib.reload(exorad)
                else:
                    k = {"force": True} if case["force"] else {}
                    if case["home"]:
                        k["package_url"] = "https://github.com/" + case["home"]
                    if case["mine"] != "own":
                        k["current_version"] = case["mine"]
                    version_control.VersionControl(**k)
        except version_control.VersionError:
            end = "refused"
        except Exception as ex:
            end, why = "failed", "%s: %s" % (type(ex).__name__, ex)
        same = int(socket.getdefaulttimeout() == before)
    log.removeHandler(ear)
    heard = [x for m in ear.heard for x in m.splitlines()]
    lines = [{"k": x["k"], "v": x["v"], "n": n} for n, x in enumerate(case["lines"], 1)]
    texts = [write(x, n) for n, x in enumerate(case["lines"], 1)]
    told, rest = [], []
    for m in heard:
        at = [n for n, t in enumerate(texts, 1) if t and t in m and n not in told]
        # the longest of those in it: some releases are named by a part of another's name
        best = max(at, key=lambda n: len(texts[n - 1])) if at else 0
        if best:
            told.append(best)
        elif m.strip():
            rest.append(m)
    known = {x["v"] for x in case["lines"]} - {""} | {case["mine"]}
    names = {(OWN if v == "own" else v): v for v in known}
    named = sorted({names[t] for m in rest for t in re.findall(r"[\w.\-]*\d[\w.\-]*", m) if t in names})
    owners = []
    for x in asked:
        m = re.search(r"repos/([^/]+/[^/]+)/", x)
        owners.append(m.group(1) if m else x)
    return [{"ev": "Check", "reach": case["reach"], "answer": case["answer"], "lines": lines, "mine": case["mine"], "force": case["force"]},
            {"ev": "Checked", "end": end, "why": why, "told": told, "named": named, "loud": int(bool(heard)), "asked": owners, "home": case["home"] or HOME, "same": same, "by": case["by"]}]


def record(case):
    exo.quiet()
    ev = [{"ev": "Reset", "case": case["id"]}]
    try:
        for x in case["checks"]:
            ev += once(x)
    except Exception as ex:
        import traceback
        ev.append({"ev": "Crash", "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-1500:]})
    return ev


def corrupt(r):
    for e in r:
        if e["ev"] == "Checked" and e["told"]:
            e["told"] = e["told"][:-1]
            return r
    return [r[0], {"ev": "Crash", "error": ""}]


def check(ctx):
    ctx.mc("VersionCheckMC", expect_actions=["MCheck", "MStep"])
    cases = ctx.pick("versions", lambda: ctx.gen("VersionCheckGen", cfg="VersionCheckGenThorough.cfg" if ctx.thorough else "VersionCheckGen.cfg"))
    if not cases:
        return
    recs = ctx.run(cases, record, limit=300)
    ctx.samples = recs[:2]
    e = [x for r in recs for x in r if x["ev"] == "Checked"]
    ctx.notes["checks"] = {"all": len(e), "told": sum(bool(x["told"]) for x in e), "refused": sum(x["end"] == "refused" for x in e), "by import": sum(x["by"] == "import" for x in e)}
    bad = ctx.validate("VersionCheckTrace", recs, parallel=4)
    if not bad:
        ctx.selftest("VersionCheckTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "versions")
