"""Tries the planted bugs in /verif/seeded: plant.py [ids...] [-c] [-j N].
Each is applied to a scratch copy of /repo: builds, passes the stable tests, the demonstration
tells the trees apart; with -c the property's check is run against it as well.
Nothing that MANIFEST.json registers uses this."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

SEEDED, BASE = "/verif/seeded", "/tmp/plant"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, t=900, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=t, text=True, shell=isinstance(cmd, str))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def tests(tree):
    x = tree + ".xml"
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o",
        "junit_family=xunit2", "--junitxml=" + x, "tests"], tree, PYTHONPATH=tree, HOME=tree + ".home")
    import xml.etree.ElementTree as ET
    ok = {"%s::%s" % (c.get("classname"), c.get("name")) for c in ET.parse(x).iter("testcase")
          if all(c.find(k) is None for k in ("failure", "error", "skipped"))}
    os.remove(x)
    return sorted(STABLE - ok)


def one(a):
    bid, check = a
    d = os.path.join(SEEDED, bid)
    tree = os.path.join(BASE, bid)
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs(tree + ".home", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    demo = tree + ".demo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    out, fine = [], True
    e = dict(PYTHONPATH=tree, HOME=tree + ".home")
    try:
        rc, o = sh(["bash", demo + "/demo.sh"], tree, 300, **e)
        if rc:
            fine = False
            out.append("demo fails on the unchanged tree: %d %s" % (rc, o[-400:]))
        rc, o = sh(["git", "apply", d + "/patch.diff"], tree)
        if rc:
            return bid, False, ["does not apply " + o]
        lost = tests(tree)
        subprocess.run(["git", "-C", tree, "checkout", "-q", "--", "tests"])
        if lost:
            fine = False
            out.append("tests lost: %d %s" % (len(lost), lost[:3]))
        rc, o = sh(["bash", demo + "/demo.sh"], tree, 300, **e)
        if rc == 0:
            fine = False
            out.append("demo passes with the bug")
        else:
            out.append("demo: " + (o.strip().splitlines() or ["?"])[-1][:150])
        if check:
            prop = json.load(open(d + "/meta.json"))["property"]
            for seed in os.environ.get("SEEDS", "1").split():
                rc, o = sh(["python3", "/verif/run.py", prop, "--seed", seed], "/verif", 900, VERIF_REPO=tree)
                hit = [x for x in o.splitlines() if x.startswith("VIOLATION property=%s " % prop)]
                cl = [x.strip().split(" ")[1] for x in o.splitlines() if x.strip().startswith("clause")]
                out.append("CAUGHT %s %s" % (prop, ",".join(cl)) if rc == 1 and hit else "MISSED %s rc=%d %s" % (prop, rc, o[-200:]))
    finally:
        for x in (tree, tree + ".home", demo):
            shutil.rmtree(x, ignore_errors=True)
    return bid, fine, out


if __name__ == "__main__":
    av = sys.argv[1:]
    check = "-c" in av
    j = int(av[av.index("-j") + 1]) if "-j" in av else 4
    if "-j" in av:
        del av[av.index("-j"):av.index("-j") + 2]
    ids = [x for x in av if x != "-c"] or sorted(os.listdir(SEEDED))
    os.makedirs(BASE, exist_ok=True)
    with cf.ThreadPoolExecutor(j) as ex:
        for bid, fine, out in ex.map(one, [(i, check) for i in ids]):
            print(("ok   " if fine else "BAD  ") + bid + "  " + " | ".join(out), flush=True)
