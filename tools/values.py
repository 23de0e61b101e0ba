"""Value mutants: at one expression of knx_stack, one integer comes out wrong.

usage: values.py record            which integers are seen where, by all the Python checks
       values.py try OUT.jsonl [--jobs N]

Every expression which yields an int is wrapped in a copy of the repository
(/tmp/val/repo); an environment variable says which site lies about which value.
Used to find boundary values the generators do not reach, and values which are
reached without anybody looking at the result.
"""
import ast
import collections
import glob
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import ALL, FIRST, REPO, VERIF, ids, is_log  # noqa

ROOT = "/tmp/val/repo"
HOOK = '''
import builtins, os, atexit, json, collections
if not hasattr(builtins, "_vm_seen"):
    builtins._vm_seen = collections.defaultdict(collections.Counter)
    _site, _val = int(os.environ.get("VM_SITE", -1)), int(os.environ.get("VM_K", 0))
    _flip = int(os.environ.get("VM_X", 1))
    if "VM_OUT" in os.environ:
        def _vm(i, v):
            if v.__class__ is int:
                c = builtins._vm_seen[i]
                if len(c) < 3000 or v in c:
                    c[v] += 1
            return v
        def _vm_dump():
            with open(os.path.join(os.environ["VM_OUT"], "%d.json" % os.getpid()), "w") as f:
                json.dump({i: list(c.items()) for i, c in builtins._vm_seen.items()}, f)
        atexit.register(_vm_dump)
        def _vm_exit(code, leave=os._exit):
            _vm_dump()
            leave(code)
        os._exit = _vm_exit
    elif _site >= 0:
        def _vm(i, v):
            if i == _site and v.__class__ is int and v == _val:
                return v ^ _flip
            return v
    else:
        def _vm(i, v):
            return v
    builtins._vm = _vm
'''


def wrap():
    shutil.rmtree(ROOT, ignore_errors=True)
    shutil.copytree(REPO, ROOT, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    sites = []
    for full in sorted(glob.glob(ROOT + "/knx_stack/**/*.py", recursive=True)):
        if "/tests/" in full:
            continue
        src = open(full).read()
        tree = ast.parse(src)
        raw = [l.encode() for l in src.splitlines(keepends=True)]
        starts = [0]
        for l in raw:
            starts.append(starts[-1] + len(l))
        skip, edits = set(), []
        for n in ast.walk(tree):
            if is_log(n):
                skip |= {id(m) for m in ast.walk(n)}
            for f in ("annotation", "returns"):
                if getattr(n, f, None) is not None:
                    skip |= {id(m) for m in ast.walk(getattr(n, f))}
            if isinstance(n, ast.Call):
                skip.add(id(n.func))
                if isinstance(n.func, ast.Name) and n.func.id in ("super", "property", "namedtuple"):
                    skip.add(id(n))
            if isinstance(n, ast.Attribute):
                skip.add(id(n.value))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                for d in n.decorator_list:
                    skip |= {id(m) for m in ast.walk(d)}
            if isinstance(n, ast.ClassDef):
                for b in list(n.bases) + [x for x in n.body if not isinstance(x, ast.FunctionDef)]:
                    skip |= {id(m) for m in ast.walk(b)}
            if isinstance(n, (ast.JoinedStr, ast.Import, ast.ImportFrom)):
                skip |= {id(m) for m in ast.walk(n)}
        for n in ast.walk(tree):
            if id(n) in skip or not isinstance(n, (ast.Attribute, ast.Name, ast.Subscript, ast.Call, ast.BinOp)):
                continue
            if hasattr(n, "ctx") and not isinstance(n.ctx, ast.Load):
                continue
            a = starts[n.lineno - 1] + n.col_offset
            b = starts[n.end_lineno - 1] + n.end_col_offset
            i = len(sites)
            sites.append((os.path.relpath(full, ROOT), n.lineno, ast.unparse(n)))
            edits += [(a, 1, -b, "_vm(%d, " % i), (b, 0, -a, ")")]
        whole = src.encode()
        for a, k, other, text in sorted(edits, key=lambda e: (-e[0], -e[1], -e[2] if e[1] else -e[2])):
            whole = whole[:a] + text.encode() + whole[a:]
        ast.parse(whole)
        if full.endswith("knx_stack/__init__.py"):
            whole = HOOK.encode() + whole
        open(full, "wb").write(whole)
    json.dump(sites, open("/tmp/val/sites.json", "w"))
    return sites


def check(pid, env, timeout=600):
    e = dict(os.environ, VERIF_REPO=ROOT, VERIF_SEED="1", VERIF_TIER="quick", **env)
    try:
        r = subprocess.run([VERIF + "/check", pid], env=e, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def record():
    wrap()
    shutil.rmtree("/tmp/val/seen", ignore_errors=True)
    for p in ALL:
        os.makedirs("/tmp/val/seen/" + p)
    with mp.Pool(7) as pool:
        print(pool.starmap(rec1, [(p,) for p in ALL]))
    total = {}
    for p in ALL:
        for f in glob.glob("/tmp/val/seen/%s/*.json" % p):
            for i, items in json.load(open(f)).items():
                c = total.setdefault(int(i), {})
                for v, n in items:
                    c.setdefault(v, {}).setdefault(p, 0)
                    c[v][p] += n
    json.dump(total, open("/tmp/val/total.json", "w"))


def rec1(p):
    return p, check(p, {"VM_OUT": "/tmp/val/seen/" + p})[0]


def work(job):
    i, v, flip, who, site = job
    order = []
    for k, x in FIRST:
        if k in site[0]:
            order += x
    order = [x for x in order if x in who] + [x for x in sorted(who, key=lambda x: -who[x]) if x not in order]
    no = []
    for p in order:
        code, text = check(p, {"VM_SITE": str(i), "VM_K": str(v), "VM_X": str(flip)})
        if code == 1:
            return dict(site=site, v=v, flip=flip, verdict="caught", by=p)
        if code:
            no.append((p, code, text[-300:]))
    return dict(site=site, v=v, flip=flip, verdict="noanswer" if no else "alive", no=no, tried=order)


def attempt(out, jobs):
    sites = json.load(open("/tmp/val/sites.json"))
    total = json.load(open("/tmp/val/total.json"))
    rng = random.Random(5)
    todo = []
    for i, c in total.items():
        vs = {int(v): w for v, w in c.items()}
        n = {v: sum(w.values()) for v, w in vs.items()}
        pick = {min(vs), max(vs)} | set(sorted(vs, key=lambda v: (n[v], v))[:2])
        pick |= set(rng.sample(sorted(vs), min(2, len(vs))))
        pick |= {v for v in (0, 1, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF) if v in vs and rng.random() < 0.35}
        for v in pick:
            todo.append((int(i), v, rng.choice([1, 1, 2, 0x80]), vs[v], sites[int(i)]))
    rng.shuffle(todo)
    done = set()
    if os.path.exists(out):
        done = {(tuple(r["site"]), r["v"]) for r in map(json.loads, open(out))}
    todo = [t for t in todo if (tuple(t[4]), t[1]) not in done]
    print(len(todo), "value mutants")
    with mp.Pool(jobs) as pool, open(out, "a") as h:
        for r in pool.imap_unordered(work, todo, chunksize=1):
            h.write(json.dumps(r) + "\n")
            h.flush()


if __name__ == "__main__":
    if sys.argv[1] == "record":
        record()
    else:
        attempt(sys.argv[2], int(sys.argv[4]) if len(sys.argv) > 4 else 7)
