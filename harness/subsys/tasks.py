"""C20: real exorad Task classes driven by behaviours of TaskFramework.tla."""
import exo
from exorad.tasks.task import Task

exo.quiet()
VAL = {"none": None, "zero": 0, "false": False, "empty": "", "v1": "v1", "v2": [1, 2], "dq": "dq", "dp": 7}


def name(v):
    for k, w in VAL.items():
        if w is v or (type(w) is type(v) and w == v):
            return k
    return "other:%r" % (v,)


def run_script(script):
    events = [{"ev": "Reset"}]
    it = iter(script)
    counter = [0]

    class A(Task):
        pnames = ("p", "q")

        def __init__(self):
            self.addTaskParam("p", "a parameter")
            self.addTaskParam("q", "another", VAL["dq"])

        def look(self):
            return {k: name(self.get_task_param(k)) for k in self.pnames}

        def execute(self):
            me = self.current
            me["out"] = "ran"
            me["seen"], me["m"] = self.look(), len(self.pnames)
            n = me["id"]
            while True:
                s = next(it)
                if s["ev"] == "Call":
                    do_call(s)
                elif s["ev"] == "Look":
                    events.append({"ev": "Look", "seen": self.look(), "m": len(self.pnames)})
                elif s["ev"] == "Raise":
                    raise KeyError("scripted")
                else:
                    self.set_output({"token": n})
                    return

    class B(A):
        pnames = ("p", "r")

        def __init__(self):
            self.addTaskParam("p", "a parameter", VAL["dp"])
            self.addTaskParam("r", "another")

    class C(A):
        pnames = ("p", "q", "s")

        def __init__(self):
            super().__init__()
            self.addTaskParam("s", "one more", VAL["zero"])

    inst = {"a1": A(), "a2": A(), "b1": B(), "c1": C()}

    def do_call(s):
        counter[0] += 1
        args = s["args"] if s["n"] else {}
        ev = {"ev": "Call", "inst": s["inst"], "args": args, "n": s["n"], "out": "rejected",
              "seen": {}, "m": 0, "error": "none", "id": counter[0]}
        events.append(ev)
        obj = inst[s["inst"]]
        obj.current = ev
        try:
            ret = obj(**{k: VAL[v] for k, v in args.items()})
            events.append({"ev": "End", "ret": ret["token"] if isinstance(ret, dict) else -1})
        except StopIteration:
            raise
        except Exception as ex:
            if ev["out"] == "ran":
                events.append({"ev": "Raise", "error": type(ex).__name__})
            else:
                ev["error"] = type(ex).__name__

    for s in it:
        if s["ev"] == "Call":
            try:
                do_call(s)
            except StopIteration:
                break
        # other steps here belong to an execution that did not happen: skip
    return events


def check(ctx):
    ctx.mc("TaskFramework", expect_actions=["Begin", "Reject", "Look", "End", "Raise"])
    cases = ctx.pick("tasks", lambda: ctx.gen("TaskFrameworkGen", simulate=ctx.size(400, 6000), depth=80))
    recs = ctx.run(cases, run_script, procs=1)
    ctx.samples = recs[:2]

    def corrupt(r):
        for e in r:
            if e["ev"] == "End":
                e["ret"] += 1
                return r
        r[1]["out"], r[1]["error"] = ("rejected", "ValueError") if r[1]["out"] == "ran" else ("ran", "none")
        return r
    bad = ctx.validate("TaskFrameworkTrace", recs)
    if not bad:
        ctx.selftest("TaskFrameworkTrace", recs, corrupt)
    ctx.report(bad, cases, recs, "tasks")
