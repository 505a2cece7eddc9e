"""Common machinery of the checks: running TLC, replaying cases in the real
code, validating the recorded traces with TLC, reporting and evidence."""
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class MachineryError(Exception):
    """The check itself failed (never a verdict on the code)."""


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    self.prints.append(json.loads(line))
                except ValueError:
                    pass
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = self.distinct = int(m[-1])
        self.ok = rc == 0

    def errors(self):
        i = self.out.find("Error:")
        return self.out[i:i + 2000] + "\n...\n" + self.out[-1500:]

    def tagged(self, tag):
        p = tag + " "
        return [json.loads(x[len(p):]) for x in self.prints if x.startswith(p)]

    def actions(self):
        """per-action counts of a -coverage run: {name: (distinct, total)}"""
        res = {}
        for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+(?: \([^)]*\))?>: (\d+):(\d+)", self.out):
            a = res.get(m.group(1), (0, 0))
            res[m.group(1)] = (max(a[0], int(m.group(2))), max(a[1], int(m.group(3))))
        return res


def tlc(module, cfg, scratch, env=None, workers=1, extra=(), timeout=600, heap="4g"):
    md = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:ParallelGCThreads=2",
           "-Djava.io.tmpdir=" + md, "-cp", TLA_CP, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=e, timeout=timeout, cwd=md)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timed out on %s/%s" % (module, cfg)) from ex
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return TlcResult(p.stdout, p.returncode)


def astray(ex):
    """the harness lost its way in what the code under test gave (something that was there is missing,
    or is of another kind), not in how it is called"""
    if isinstance(ex, AttributeError):
        return not isinstance(ex.obj, (type, types.ModuleType))
    if isinstance(ex, TypeError):
        return "argument" not in str(ex)
    return isinstance(ex, (LookupError, ValueError))


def _case_worker(args):
    """(what fn recorded, whether it took too long)"""
    fn, case, limit = args
    late = []
    if "payload" in sys.modules:
        sys.modules["payload"].UNITS = case.get("units", 0) if isinstance(case, dict) else 0

    def onalarm(*_):
        late.append(1)
        raise TimeoutError("case exceeded %ss" % limit)
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        return fn(case), bool(late)
    except Exception as ex:
        error = "%s: %s" % (type(ex).__name__, ex)
        trace = traceback.format_exc()[-2500:]
        # what the code under test raises, or takes too long for, is its own
        code = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/exorad/"
        if late or any(os.path.realpath(f.filename).startswith(code) for f in traceback.extract_tb(ex.__traceback__)):
            return [{"ev": "Reset"}, {"ev": "Crash", "error": error, "trace": trace[-1500:]}], bool(late)
        if astray(ex):
            return [{"ev": "Reset"}, {"ev": "Crash", "error": "what it gave cannot be read: " + error, "trace": trace[-1500:]}], bool(late)
        return {"__error__": error, "trace": trace}, bool(late)
    finally:
        signal.alarm(0)


def short(x, room=12000):
    """a sample that fits into the evidence: all of it, or as much of it as there is room for"""
    text = json.dumps(x, default=str)
    if len(text) <= room:
        return x
    if isinstance(x, list):
        out = []
        for y in x:
            y = short(y, 4000)
            room -= len(json.dumps(y, default=str))
            if room < 0:
                break
            out.append(y)
        return out + ["... of %d" % len(x)]
    if isinstance(x, dict):
        return {k: short(v, room // max(1, len(x))) for k, v in x.items()}
    return text[:200] + "..."


class Ctx:
    def __init__(self, prop, tier=None, seed=None, replay=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED") or 1)
        self.replay = replay
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes = [], [], {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    def _account(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    # -- the specification alone -------------------------------------------------
    def mc(self, module, cfg=None, workers=8, env=None, timeout=800, expect_actions=(), heap="8g"):
        """Exhaustive check of the spec's own invariants; a violation means the
        specification contradicts itself, which is an error of the check."""
        cfg = cfg or module + ".cfg"
        if self.replay is not None:
            return None
        r = tlc(module, cfg, self.scratch, env=env, workers=workers, timeout=timeout,
                extra=["-coverage", "1"], heap=heap)
        if not r.ok:
            raise MachineryError("TLC on %s/%s:\n%s" % (module, cfg, r.errors()))
        acts = r.actions()
        for a in expect_actions:
            if acts.get(a, (0, 0))[1] == 0:
                raise MachineryError("action %s of %s never taken in %s: vacuous model" % (a, module, cfg))
        self._account(r)
        self.notes.setdefault("models", {})[cfg] = {
            "distinct": r.distinct, "generated": r.generated,
            "actions": {k: v[1] for k, v in acts.items()}}
        return r

    # -- cases from the specification ---------------------------------------------
    def gen(self, module, cfg=None, env=None, simulate=None, depth=None, limit=None, timeout=600, tag="CASE"):
        cfg = cfg or module + ".cfg"
        extra = []
        if simulate:
            extra += ["-simulate", "num=%d" % simulate]
            if depth:
                extra += ["-depth", str(depth)]
        extra += ["-seed", str(self.seed)]
        r = tlc(module, cfg, self.scratch, env=env, workers=1, extra=extra, timeout=timeout)
        if not r.ok:
            raise MachineryError("TLC generation %s/%s:\n%s" % (module, cfg, r.errors()))
        self._account(r)
        seen, cases = set(), []
        for c in r.tagged(tag):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cases.append(c)
        if not cases:
            raise MachineryError("no cases from %s/%s:\n%s" % (module, cfg, r.out[-1500:]))
        self.notes.setdefault("generated", {})[cfg] = len(cases)
        if limit and len(cases) > limit:
            import random
            cases = random.Random(self.seed).sample(cases, limit)
        return cases

    def pick(self, subsystem, make):
        """the cases to run: the replayed one, or what make() generates"""
        if self.replay is not None:
            v = self.replay["violation"]
            return [v["case"]] if v.get("subsystem") in (None, subsystem) else []
        return make()

    @staticmethod
    def _collect(got):
        res, late = [], 0
        for r, slow in got:
            res.append(r)
            late += slow
            if late >= 3:
                break
        return res

    # -- the real code ---------------------------------------------------------------
    def run(self, cases, fn, procs=8, limit=120, chunk=1):
        """what fn(case) records, in forked workers; of cases that take too long, three are enough"""
        if procs <= 1 or len(cases) <= 1:
            got = map(_case_worker, [(fn, c, limit) for c in cases])
            res = self._collect(got)
        else:
            with multiprocessing.get_context("fork").Pool(min(procs, len(cases))) as pool:
                res = self._collect(pool.imap(_case_worker, [(fn, c, limit) for c in cases], chunksize=chunk))
        for c, r in zip(cases, res):
            if isinstance(r, dict) and "__error__" in r:
                raise MachineryError("case %s\n%s" % (json.dumps(c)[:1500], r.get("trace", r["__error__"])))
        return res

    # -- conformance -------------------------------------------------------------------
    def validate(self, module, records, cfg=None, env=None, traces=None, parallel=1, timeout=800):
        """records: list of traces (each a list of events). Returns the mismatches:
        [{trace, line, clause, exp, got}]."""
        cfg = cfg or module + ".cfg"
        if not records:
            raise MachineryError("nothing recorded for " + module)
        chunks = [c for c in (range(i, len(records), parallel) for i in range(parallel)) if len(c)]
        from concurrent.futures import ThreadPoolExecutor

        def judge(idx):
            fd, path = tempfile.mkstemp(suffix=".ndjson", dir=self.scratch)
            where = []
            with os.fdopen(fd, "w") as f:
                for t in idx:
                    for ln, ev in enumerate(records[t]):
                        f.write(json.dumps(ev) + "\n")
                        where.append((t, ln))
            r = tlc(module, cfg, self.scratch, env=dict(env or {}, TRACE=path), timeout=timeout)
            os.remove(path)
            return r, where

        def one(idx):
            r, where = judge(idx)
            v = r.tagged("VERDICT")
            if not r.ok and any(x in r.out for x in ("ttempted to ", "evaluating the expression", "NullPointer", "In computing")):
                return r, odd(list(idx), r)
            if not r.ok or not v:
                raise MachineryError("TLC trace validation %s:\n%s" % (module, r.errors()))
            v = v[-1]
            if v["consumed"] != len(where):
                raise MachineryError("%s consumed %s of %s events" % (module, v["consumed"], len(where)))
            out = []
            for b in v["bad"]:
                t, ln = where[b["line"] - 1]
                out.append(dict(b, trace=t, line=ln))
            return r, out

        def odd(idx, r):
            """something was recorded that has no place in the specification at all: one such recording"""
            while len(idx) > 1:
                half = idx[:len(idx) // 2]
                h = judge(half)[0]
                if h.ok:
                    half = idx[len(idx) // 2:]
                idx = half
            text = re.search(r"Error: (.*ttempted to.*|.*)", judge(idx)[0].out)
            if not text:
                raise MachineryError("TLC trace validation %s:\n%s" % (module, r.errors()))
            return [{"clause": "X.shape", "trace": idx[0], "line": 0, "exp": "something " + module + " has a place for", "got": text.group(1)[:200]}]

        bad = []
        with ThreadPoolExecutor(parallel) as ex:
            for r, out in ex.map(one, chunks):
                self._account(r)
                bad += out
        self.traces += len(records) if traces is None else traces
        return sorted(bad, key=lambda b: (b["trace"], b["line"]))

    def selftest(self, module, records, corrupt, cfg=None, env=None):
        """binding demonstration: a corrupted recording has to be rejected"""
        if self.replay is not None:
            return
        bent = None
        for r in records:
            c = json.loads(json.dumps(r))
            try:
                c = corrupt(c)
            except (KeyError, IndexError):   # nothing to corrupt in this one
                continue
            if c != r and not (len(c) == 2 and c[1].get("ev") == "Crash"):
                bent = c
                break
        if bent is None:
            raise MachineryError("binding self-test of %s: no recording to corrupt" % module)
        before = (self.traces, self.states, self.transitions)
        bad = self.validate(module, [bent], cfg=cfg, env=env)
        self.traces, self.states, self.transitions = before
        if not bad:
            raise MachineryError("binding self-test of %s: corrupted recording accepted" % module)
        self.notes.setdefault("binding_selftest", []).append(
            "%s rejected a corrupted recording at clause %s" % (module, bad[0]["clause"]))

    # -- verdict ---------------------------------------------------------------------------
    def report(self, bad, cases, records=None, subsystem=None):
        """keep the mismatches of this property's clauses"""
        other = {}
        for b in bad:
            if b["clause"].startswith((self.prop + ".", "X.")):   # X: the code failed outright
                self.violations.append({
                    "clause": b["clause"], "exp": b.get("exp"), "got": b.get("got"),
                    "line": b.get("line"), "case": cases[b["trace"]], "subsystem": subsystem,
                    "event": None if records is None else records[b["trace"]][b["line"]]})
            else:
                other[b["clause"]] = other.get(b["clause"], 0) + 1
        if other:
            self.notes.setdefault("mismatches_of_other_properties", {}).update(other)

    def violate(self, clause, msg, case=None):
        self.violations.append({"clause": clause, "exp": None, "got": msg, "case": case, "line": None})

    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith("{"):
                    k = json.loads(line)
                    if k.get("property") == self.prop and k.get("status", "open") == "open":
                        known.append(k)
        new, hit = [], {}
        for v in self.violations:
            k = next((k for k in known if k["clause"] == v["clause"] and
                      all(json.dumps(v["case"], sort_keys=True).find(s) >= 0 for s in k.get("case_has", []))), None)
            if k is None:
                new.append(v)
            else:
                hit.setdefault(k["what"], 0)
                hit[k["what"]] += 1
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        wall = round(time.time() - self.t0, 2)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces,
                                "samples": [short(x) for x in self.samples[:4]]}, **self.notes),
              "assumptions": self.assumptions, "wall_s": wall, "violations": len(new)}
        if self.replay is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            p = os.path.join(VERIF, "evidence", self.prop + ".json")
            with open(p + ".tmp%d" % os.getpid(), "w") as f:
                json.dump(ev, f, indent=1)
            os.replace(p + ".tmp%d" % os.getpid(), p)
        code = 0
        if new:
            code = 1
            per = {}
            for v in new:
                per.setdefault(v["clause"], []).append(v)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for clause, vs in sorted(per.items()):
                vs.sort(key=lambda v: len(json.dumps(v["case"])))
                body = json.dumps({"property": self.prop, "seed": self.seed, "tier": self.tier,
                                   "violation": vs[0], "others": len(vs) - 1}, indent=1)
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (
                    clause, hashlib.sha1(body.encode()).hexdigest()[:10]))
                with open(path, "w") as f:
                    f.write(body)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  clause %s (%d cases): expected %s, got %s" % (
                    clause, len(vs), str(vs[0]["exp"])[:300], str(vs[0]["got"])[:300]))
        print("%s %s: %d states, %d traces of the real code validated, %d violations, %.1fs" % (
            self.prop, self.tier, self.states, self.traces, len(new), wall))
        return code

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


# -- small helpers for decoding real values ------------------------------------------------
def log2i(x, base=1.0, tol=0.02, bad=-9999, zero=9999):
    """-log2(x/base) when that is (nearly) an integer; zero for 0, bad otherwise"""
    import math
    try:
        x = float(x)
    except Exception:
        return bad
    if x != x:
        return bad
    if x == 0:
        return zero
    if x < 0 or base == 0:
        return bad
    v = -math.log2(x / base)
    if abs(v - round(v)) > tol:
        return bad
    return int(round(v))


def scaled(x, unit=1.0, tol=1e-6, bad=-999999999):
    """x/unit when (nearly) an integer, relative tolerance"""
    try:
        v = float(x) / unit
    except Exception:
        return bad
    if v != v or abs(v) > 2e9:
        return bad
    r = round(v)
    return int(r) if abs(v - r) <= tol * max(1.0, abs(v)) else bad


def num(x):
    """a nonnegative decimal of four digits [m, e] as in Num.tla; [-1, 0] for anything else"""
    import math
    try:
        x = float(x)
    except Exception:
        return [-1, 0]
    if not math.isfinite(x) or x < 0:
        return [-1, 0]
    if x == 0:
        return [0, 0]
    e = math.floor(math.log10(x)) - 3
    m = int(round(x / 10.0**e))
    return [m, e] if m < 10000 else [m // 10, e + 1]
