"""What the generators generate: distinct values per path of the cases.  diversity.py Module[:cfg] ...
A path with one value only is a field that nothing varies.  Not used by any registered command."""
import collections
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import lib


def walk(x, path, acc):
    if isinstance(x, dict):
        for k, v in x.items():
            walk(v, path + "." + str(k), acc)
    elif isinstance(x, list):
        acc[path + "#"].add(len(x))
        for v in x:
            walk(v, path + "[]", acc)
    else:
        acc[path].add(x)


for a in sys.argv[1:]:
    m, _, c = a.partition(":")
    ctx = lib.Ctx("XX", "quick", "1", None)
    sim = m in ("ObservationGen", "OutputFileGen", "LogLevelsGen", "TaskFrameworkGen")
    kw = dict(simulate=200, depth=30) if sim else {}
    cases = ctx.gen(m, cfg=c or m + ".cfg", **kw)
    acc = collections.defaultdict(set)
    for x in cases:
        walk(x, "", acc)
    print("==", m, len(cases), "cases,", len({json.dumps(x, sort_keys=True) for x in cases}), "distinct")
    for p, v in sorted(acc.items()):
        vs = sorted(v, key=str)
        print("  %s%-40s %4d  %s" % ("** " if len(v) == 1 else "   ", p, len(v), str(vs[:8])[:110]))
