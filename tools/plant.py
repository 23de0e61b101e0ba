"""Write and try planted bugs.

    plant.py write FILE        write /verif/seeded/<id>/ of every bug FILE defines
    plant.py try [ID...]       stable tests, demonstration and check of each

FILE is a Python file with a list BUGS of dictionaries: id, property, edits (list of
(file, old, new) or (file, old, new, occurrence)), needs, breaks, demo (text of demo.py) or
files (name -> text, with a demo.sh).
"""

import concurrent.futures
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

REPO, VERIF = "/repo", "/verif"
SH = 'export PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH=. exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.check_call(["cp", "-a", REPO + "/.", d])
    return d


def write(path):
    for b in runpy.run_path(path)["BUGS"]:
        d = copy()
        try:
            for f, old, new, *nth in b["edits"]:
                p = os.path.join(d, f)
                t = open(p).read()
                n = t.count(old)
                if not nth and n != 1:
                    sys.exit("%s: %d matches of %r in %s" % (b["id"], n, old, f))
                if nth:
                    parts = t.split(old)
                    k = nth[0]
                    t = old.join(parts[:k]) + new + old.join(parts[k:])
                else:
                    t = t.replace(old, new)
                open(p, "w").write(t)
            diff = subprocess.check_output(["git", "-C", d, "diff"]).decode()
            assert diff, b["id"]
            out = os.path.join(VERIF, "seeded", b["id"])
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(out + "/patch.diff", "w").write(diff)
            files = dict(b.get("files", {}))
            if "demo" in b:
                files["demo.py"] = b["demo"].lstrip("\n")
                files["demo.sh"] = "#!/bin/bash\n# run in the repository: 0 when %s holds here\n" % b["property"] + SH
            for n, t in files.items():
                open(os.path.join(out, n), "w").write(t.lstrip("\n"))
            os.chmod(out + "/demo.sh", 0o755)
            json.dump(
                {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                open(out + "/meta.json", "w"), indent=1,
            )
        finally:
            shutil.rmtree(d)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode(errors="replace")


def try_one(i):
    s = os.path.join(VERIF, "seeded", i)
    meta = json.load(open(s + "/meta.json"))
    d = copy()
    lay = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    try:
        for f in os.listdir(s):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(s, f), lay)
        r = {"id": i, "property": meta["property"]}
        before, o0 = run(["bash", lay + "/demo.sh"], cwd=d, timeout=300)
        x, o = run(["git", "-C", d, "apply", s + "/patch.diff"])
        if x:
            return dict(r, bad="does not apply: " + o)
        after, o1 = run(["bash", lay + "/demo.sh"], cwd=d, timeout=300)
        r["demo"] = (before, after)
        if before != 0 or after == 0:
            r["bad"] = "demo: %s\n-----\n%s" % (o0[-1500:], o1[-1500:])
        r["demo_says"] = o1.strip().split("\n")[-1][:200]
        x, o = run(["make", "-B", "-C", d + "/daemon", "CC=cc"])
        if x:
            r["bad"] = "does not build"
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick",
                   VERIF_EVIDENCE=lay)
        x, o = run([VERIF + "/check", meta["property"]], cwd=VERIF, env=env, timeout=1200)
        if x == 1 and "\nVIOLATION property=%s replay=" % meta["property"] not in "\n" + o:
            x = "1 without a VIOLATION line"
        r["check"] = x
        r["says"] = [l for l in o.split("\n") if l.startswith("VIOLATION")][:1] or o[-600:]
        return r
    finally:
        shutil.rmtree(d)
        shutil.rmtree(lay)


def tests(i):
    """The stable tests which fail with the bug."""
    d = copy()
    xml = d + ".xml"
    try:
        if run(["git", "-C", d, "apply", os.path.join(VERIF, "seeded", i, "patch.diff")])[0]:
            return "does not apply"
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPYCACHEPREFIX="/nonexistent/x", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout",
             "--timeout=60", "--doctest-modules", "--doctest-glob=*.rst", "-o", "junit_family=xunit2",
             "--junitxml=" + xml, "knx_stack", "docs/source/intro.rst"], cwd=d, env=env, timeout=600)
        good = {
            c.get("classname") + "::" + c.get("name")
            for c in ET.parse(xml).iter("testcase")
            if all(x.tag.startswith("system") for x in c)
        }
        return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - good)
    finally:
        shutil.rmtree(d)
        if os.path.exists(xml):
            os.remove(xml)


def main():
    if sys.argv[1] == "write":
        return write(sys.argv[2])
    ids = sys.argv[2:] or sorted(os.path.basename(p) for p in glob.glob(VERIF + "/seeded/*"))
    assert not subprocess.check_output(["git", "-C", REPO, "status", "--porcelain"])
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for i, t in zip(ids, ex.map(tests, ids)):
            if t:
                print(i, "TESTS", t)
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for r in ex.map(try_one, ids):
            print("%-28s %-4s demo %s %s  %s" % (
                r["id"], r["property"], r.get("demo"),
                "caught" if r.get("check") == 1 else "MISSED (%s)" % r.get("check"),
                r.get("demo_says", "")))
            if r.get("check") != 1:
                print("    ", r.get("says"))
            if "bad" in r:
                print("     BAD", r["bad"])
            sys.stdout.flush()


main()
