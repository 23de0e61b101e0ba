"""History mutants: one function of knx_stack goes wrong because of what was before.

usage: history.py record           which triggers fire where, in all the Python checks
       history.py try OUT.jsonl [--jobs N] [--kinds a,b]

Every function is wrapped in a copy of the repository (/tmp/hist/repo); an
environment variable says which one answers with what it answered before (or with
nothing), and when: because the arguments are known, because they are those of the
last call, because the call before failed, because this object was asked often,
because of what the last operation was.
"""
import ast
import collections
import glob
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import ALL, FIRST, REPO, VERIF, is_log  # noqa

ROOT = "/tmp/hist/repo"
KINDS = ["memo", "nostate", "same", "empty", "error", "n40", "n200", "void", "other", "older", "turn"]
HOOK = '''
import builtins, os, atexit, json, collections, functools, inspect, ctypes
if not hasattr(builtins, "_hm"):
    def _fp(x):
        if x is None or isinstance(x, (int, str, bytes, float)):
            return (x.__class__.__name__, x)
        if isinstance(x, (ctypes.Union, ctypes.Structure)):
            return (x.__class__.__name__, bytes(x))
        if isinstance(x, (list, tuple, set, frozenset)):
            return (x.__class__.__name__,) + tuple(_fp(y) for y in list(x)[:70])
        if isinstance(x, dict):
            return ("d",) + tuple((_fp(a), _fp(b)) for a, b in x.items())
        return ("o", id(x))

    _site, _kind = int(os.environ.get("HM_SITE", -1)), os.environ.get("HM_KIND", "")
    _rec = "HM_OUT" in os.environ
    _fired = collections.Counter()
    _top = dict(last=None, before=None, depth=0)
    _objects = {}

    def _who(args):
        for x in args:
            if x.__class__.__name__ in ("State", "Tunneling", "Client", "Request", "Listen", "Sender", "Listener", "AssociationTable", "AddressTable", "GroupObjectTable"):
                return x
        return None

    def _hm(i):
        def deco(f):
            if inspect.iscoroutinefunction(f) or inspect.isgeneratorfunction(f) or not (_rec or i == _site or f.__name__ in ("encode_msg", "decode_msg")):
                return f
            top = f.__name__ in ("encode_msg", "decode_msg")
            st = dict(memo={}, nostate={}, last=None, lastr=None, has=False, failed=False, recent=collections.deque(maxlen=6), n=0)

            def trigger(args, kw):
                """kind -> (answer instead) of those which would fire now"""
                out = {}
                key = (_fp(args), _fp(kw))
                who = _who(args)
                bare = (_fp(tuple(a for a in args if a is not who)), _fp(kw))
                st["key"], st["bare"], st["who"] = key, bare, who
                if key in st["memo"]:
                    out["memo"] = st["memo"][key][1]
                if who is not None and bare in st["nostate"] and len(args) + len(kw) > 1:
                    out["nostate"] = st["nostate"][bare]
                if st["has"]:
                    r = st["lastr"]
                    void = r.__class__() if isinstance(r, (list, tuple)) and r.__class__ in (list, tuple) else r
                    if key == st["last"]:
                        out["same"] = r
                        out["empty"] = void
                    elif key in st["recent"]:
                        out["older"] = void
                    if st["failed"]:
                        out["error"] = r
                    if who is not None:
                        c = _objects.get((i, id(who)))
                        n = c[0] if c else 0
                        if n >= 40:
                            out["n40"] = r
                        if n >= 200:
                            out["n200"] = r
                    if _top["last"] is not None and not top:
                        if _top["last"][1] == "void":
                            out["void"] = r
                        if _top["last"][0] != _top.get("now"):
                            out["turn"] = r
                        if who is not None and _top["last"][2] != id(who) and who.__class__.__name__ == "State":
                            out["other"] = r
                return out

            @functools.wraps(f)
            def g(*args, **kw):
                st["n"] += 1
                if _top.get("busy") or _rec and st["n"] > 5000 and not top:
                    return f(*args, **kw)
                if top:
                    _top["now"] = f.__name__
                if top and not _rec and i != _site:
                    return run(f, args, kw)
                if not _rec and _kind == "":
                    return f(*args, **kw)
                _top["busy"] = True
                try:
                    t = trigger(args, kw)
                finally:
                    _top["busy"] = False
                if _rec:
                    for kk in t:
                        _fired[i, kk] += 1
                elif _kind in t:
                    return t[_kind]
                key, bare, who = st["key"], st["bare"], st["who"]
                try:
                    r = run(f, args, kw) if top else f(*args, **kw)
                except Exception:
                    st["failed"] = True
                    raise
                st["failed"] = False
                if len(st["memo"]) > 3000:
                    st["memo"].clear()
                    st["nostate"].clear()
                st["memo"][key] = (args, r)
                st["nostate"][bare] = r
                if st["last"] is not None and st["last"] != key:
                    st["recent"].append(st["last"])
                st["last"], st["lastr"], st["has"] = key, r, True
                if who is not None:
                    c = _objects.setdefault((i, id(who)), [0, who])
                    c[0] += 1
                    if len(_objects) > 4000:
                        for q in list(_objects)[:2000]:
                            del _objects[q]
                return r

            def run(f, args, kw):
                what = "void"
                try:
                    r = f(*args, **kw)
                    what = "void" if r == [] else "some"
                    return r
                finally:
                    _top["last"] = (f.__name__, what, id(args[0]) if args else 0)

            return g
        return deco
    builtins._hm = _hm
    if _rec:
        def _hm_dump():
            with open(os.path.join(os.environ["HM_OUT"], "%d.json" % os.getpid()), "w") as f:
                json.dump([[a, b, n] for (a, b), n in _fired.items()], f)
        atexit.register(_hm_dump)
        def _hm_exit(code, leave=os._exit):
            _hm_dump()
            leave(code)
        os._exit = _hm_exit
'''


def wrap():
    shutil.rmtree(ROOT, ignore_errors=True)
    shutil.copytree(REPO, ROOT, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    sites = []
    for full in sorted(glob.glob(ROOT + "/knx_stack/**/*.py", recursive=True)):
        if "/tests/" in full:
            continue
        lines = open(full).read().split("\n")
        at = []
        for n in ast.walk(ast.parse("\n".join(lines))):
            if isinstance(n, ast.FunctionDef) and n.name not in ("__init__", "__new__", "__hash__", "__eq__"):
                at.append((n.lineno, n.col_offset, n.name))
        for line, col, name in sorted(at, reverse=True):
            i = len(sites)
            sites.append((os.path.relpath(full, ROOT), line, name))
            lines.insert(line - 1, " " * col + "@_hm(%d)" % i)
        whole = "\n".join(lines)
        if full.endswith("knx_stack/__init__.py"):
            whole = HOOK + whole
        ast.parse(whole)
        open(full, "w").write(whole)
    json.dump(sites, open("/tmp/hist/sites.json", "w"))
    return sites


def check(pid, env, timeout=900):
    e = dict(os.environ, VERIF_REPO=ROOT, VERIF_SEED="1", VERIF_TIER="quick", **env)
    try:
        r = subprocess.run([VERIF + "/check", pid], env=e, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def rec1(p):
    return p, check(p, {"HM_OUT": "/tmp/hist/seen/" + p}, 3000)


def record():
    wrap()
    shutil.rmtree("/tmp/hist/seen", ignore_errors=True)
    for p in ALL:
        os.makedirs("/tmp/hist/seen/" + p)
    with mp.Pool(7) as pool:
        for p, (code, text) in pool.imap_unordered(rec1, ALL):
            print(p, code, text.strip().split("\n")[-1] if code else "", flush=True)
    total = {}
    for p in ALL:
        for f in glob.glob("/tmp/hist/seen/%s/*.json" % p):
            for i, kind, n in json.load(open(f)):
                c = total.setdefault("%d %s" % (i, kind), {})
                c[p] = c.get(p, 0) + n
    json.dump(total, open("/tmp/hist/total.json", "w"))


def work(job):
    i, kind, who, site = job
    order = []
    for k, x in FIRST:
        if k in site[0]:
            order += x
    order = [x for x in order if x in who] + [x for x in sorted(who, key=lambda x: -who[x]) if x not in order]
    if kind == "other" and "S07" in order:
        order = ["S07"] + [x for x in order if x != "S07"]
    no = []
    for p in order[:7]:
        code, text = check(p, {"HM_SITE": str(i), "HM_KIND": kind})
        if code == 1:
            return dict(site=site, kind=kind, verdict="caught", by=p)
        if code:
            no.append((p, code, text[-300:]))
    return dict(site=site, kind=kind, verdict="noanswer" if no else "alive", no=no, tried=order[:7])


def attempt(out, jobs, kinds):
    sites = json.load(open("/tmp/hist/sites.json"))
    total = json.load(open("/tmp/hist/total.json"))
    todo = []
    asked = {}
    for ik, who in total.items():
        for p, n in who.items():
            c = asked.setdefault(ik.split()[0], {})
            c[p] = c.get(p, 0) + n
    for ik, who in total.items():
        i, kind = ik.split()
        who = asked[i]
        s = sites[int(i)]
        if s[2] == "__repr__" or "datapointtypes" in s[0] and kind not in ("n200", "error", "memo"):
            continue  # these only depend on what they are given
        if kind in kinds:
            todo.append((int(i), kind, who, sites[int(i)]))
    random.Random(5).shuffle(todo)
    done = set()
    if os.path.exists(out):
        done = {(tuple(r["site"]), r["kind"]) for r in map(json.loads, open(out))}
    todo = [t for t in todo if (tuple(t[3]), t[1]) not in done]
    print(len(todo), "history mutants", flush=True)
    with mp.Pool(jobs) as pool, open(out, "a") as h:
        for r in pool.imap_unordered(work, todo, chunksize=1):
            h.write(json.dumps(r) + "\n")
            h.flush()


if __name__ == "__main__":
    if sys.argv[1] == "record":
        record()
    else:
        a = sys.argv
        attempt(a[2], int(a[a.index("--jobs") + 1]) if "--jobs" in a else 7,
                a[a.index("--kinds") + 1].split(",") if "--kinds" in a else KINDS)
