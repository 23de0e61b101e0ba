"""Systematic mutants of knx_stack, against the stable tests and then the checks.

usage: mutate.py OUT.jsonl [--only SUBSTRING] [--jobs N] [--list]

Each mutant which the stable tests leave alive runs against the checks (most
relevant first, stop at the first which catches it).  Used to find what the
checks do not look at; the survivors are read by hand (many are equivalent).
"""
import argparse
import ast
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
import xml.etree.ElementTree as ET

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PY = "/opt/venv/bin/python"

SWAPS = [
    ("low", "high"), ("MSB", "LSB"), ("local", "remote"), ("source", "destination"),
    ("individual", "group"), ("ind", "con"), ("read", "write"), ("control", "data"),
    ("min", "max"), ("all", "any"), ("append", "extend"), ("insert", "append"),
    ("sequence_counter", "communication_channel_id"), ("local_sequence_counter", "remote_sequence_counter"),
    ("B1", "B2"), ("B3", "B4"), ("main", "sub"), ("tsap", "asap"), ("tsaps", "asaps"),
    ("addr", "port"), ("request", "response"), ("encode", "decode"), ("host", "port"),
    ("start_index", "number_of_elements"), ("object_index", "property_id"),
    ("confirm", "system_broadcast"), ("repeat", "ack_request"), ("hop_count", "priority"),
    ("address", "address_type"), ("long", "byte"), ("short", "byte"), ("octect", "short"),
]
SW = {}
for a, b in SWAPS:
    SW.setdefault(a, []).append(b)
    SW.setdefault(b, []).append(a)

CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"],
       ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.In: ["not in"], ast.NotIn: ["in"],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["//", "+"], ast.Div: ["*"], ast.FloorDiv: ["*"],
       ast.Mod: ["//"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitAnd: ["|"],
       ast.BitOr: ["&"], ast.BitXor: ["|"], ast.Pow: ["*"]}


def is_log(node):
    s = ast.unparse(node)
    return bool(re.search(r"\blog(ger|ging)?\b|\.(debug|info|warning|error|exception)\(", s)) and isinstance(node, ast.Expr)


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    raw = [l.encode() for l in lines]
    starts = [0]
    for l in raw:
        starts.append(starts[-1] + len(l))
    whole = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def rep(n, text, kind):
        a, b = pos(n)
        out.append((kind, n.lineno, a, b, text))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                docs.add(id(n.body[0]))
                docs.add(id(n.body[0].value))
    skip = set()
    for n in ast.walk(tree):
        if is_log(n) or isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            for m in ast.walk(n):
                skip.add(id(m))
        # fields of ctypes etc are kept; type annotations are not
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                for m in ast.walk(a):
                    skip.add(id(m))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in docs or (id(n) in skip and not isinstance(n, ast.Raise)):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = ast.get_source_segment(src, n.left), ast.get_source_segment(src, n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, "(%s %s %s)" % (l, o, r), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = ast.get_source_segment(src, n.left), ast.get_source_segment(src, n.right)
            for o in BIN[type(n.op)]:
                rep(n, "((%s) %s (%s))" % (l, o, r), "bin")
            rep(n, "(%s)" % l, "left")
            rep(n, "(%s)" % r, "right")
        elif isinstance(n, ast.BoolOp):
            vs = [ast.get_source_segment(src, v) for v in n.values]
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + o.join("(%s)" % v for v in vs) + ")", "bool")
            for i in range(len(vs)):
                rest = vs[:i] + vs[i + 1:]
                rep(n, "(" + ("and" if isinstance(n.op, ast.And) else "or").join(" (%s) " % v for v in rest) + ")", "booldrop")
        elif isinstance(n, ast.UnaryOp):
            rep(n, "(%s)" % ast.get_source_segment(src, n.operand), "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "const")
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    rep(n, "(%d)" % w, "const")
                if v > 3:
                    rep(n, "(%d)" % (v * 2), "const")
            elif isinstance(v, float):
                rep(n, "(%r)" % (v + 0.01), "const")
            elif isinstance(v, str) and v:
                rep(n, repr(v + "x"), "str")
            elif isinstance(v, bytes):
                rep(n, repr(v + b"x"), "str")
        elif isinstance(n, (ast.If, ast.While)):
            t = ast.get_source_segment(src, n.test)
            rep(n.test, "(not (%s))" % t, "negate")
            rep(n.test, "True", "true")
            rep(n.test, "False", "false")
        elif isinstance(n, ast.IfExp):
            rep(n, ast.get_source_segment(src, n.body), "ifexp")
            rep(n, ast.get_source_segment(src, n.orelse), "ifexp")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            rep(n, "pass", "delete")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n.value, "None", "return")
        elif isinstance(n, ast.Attribute):
            for w in SW.get(n.attr, []):
                v = ast.get_source_segment(src, n.value)
                rep(n, "%s.%s" % (v, w), "attr")
        elif isinstance(n, ast.Break):
            rep(n, "continue", "loop")
        elif isinstance(n, ast.Continue):
            rep(n, "break", "loop")
        if isinstance(n, ast.Call):
            pl = [a for a in n.args if not isinstance(a, ast.Starred)]
            if len(pl) == len(n.args):
                for i in range(len(pl) - 1):
                    a, b = pl[i], pl[i + 1]
                    sa, sb = ast.get_source_segment(src, a), ast.get_source_segment(src, b)
                    if sa != sb:
                        x, _ = pos(a)
                        _, y = pos(b)
                        out.append(("args", n.lineno, x, y, "%s, %s" % (sb, sa)))
                for i in range(len(n.args)):
                    sa = ast.get_source_segment(src, n.args[i])
                    fs = ast.get_source_segment(src, n.func)
                    if fs in ("int", "list", "bytes", "bytearray", "tuple", "set", "sorted", "dict", "copy.copy", "copy.deepcopy") and len(n.args) == 1:
                        rep(n, "(%s)" % sa, "uncall")
        # statement order
        body = getattr(n, "body", None)
        if isinstance(body, list) and isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try, ast.With)):
            for i in range(len(body) - 1):
                a, b = body[i], body[i + 1]
                if id(a) in docs or isinstance(a, (ast.Return, ast.Import, ast.ImportFrom)) or isinstance(b, (ast.Return,)):
                    continue
                if is_log(a) or is_log(b):
                    continue
                if any(isinstance(z, (ast.For, ast.While, ast.If, ast.Try, ast.With, ast.FunctionDef)) for z in (a, b)):
                    continue
                sa, sb = ast.get_source_segment(src, a), ast.get_source_segment(src, b)
                x, _ = pos(a)
                _, y = pos(b)
                ind = " " * a.col_offset
                out.append(("order", a.lineno, x, y, sb + "\n" + ind + sa))
    seen = set()
    for kind, line, a, b, text in out:
        new = whole[:a] + text.encode() + whole[b:]
        if new in seen or new == whole:
            continue
        seen.add(new)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        yield kind, line, whole[a:b].decode(), text, new


FIRST = [
    ("client/usbhid", ["S05"]), ("discovery", ["S06"]), ("client/knxnet_ip", ["S04"]),
    ("datapointtypes", ["V06", "V03", "V04", "V05", "R07", "E01"]), ("address.py", ["V02", "R01"]),
    ("knx_stack/msg.py", ["V01"]), ("address_table", ["T01", "T02"]), ("association_table", ["T05", "T02", "T03", "T04"]),
    ("groupobject_table", ["T02", "T04"]), ("state.py", ["T06", "T05", "S01", "S02", "T02"]), ("a_property", ["R03", "E04"]),
    ("t_connect", ["E06", "R10"]), ("t_disconnect", ["E06", "R10"]), ("link/ldata", ["R09", "E01"]), ("ldata", ["E01", "R01", "R02", "R10"]), ("n_data", ["R10", "R09"]),
    ("encode/knxnet_ip/core", ["E05"]), ("decode/knxnet_ip/core", ["S03"]), ("encode/knxnet_ip", ["E03", "S01"]),
    ("definition/layer/application", ["R08", "R03", "T04"]),
    ("decode/knxnet_ip", ["S01", "S02", "S03"]), ("definition/knxnet_ip", ["R08", "S03", "S01", "E05"]), ("usb_hid", ["E02", "R04"]), ("encode/", ["E01", "E04"]),
    ("decode/", ["R01", "R02", "R03"]),
]
ALL = ["V01", "V02", "V03", "V04", "V05", "V06", "T01", "T02", "T03", "T04", "T05", "T06", "E01", "E02", "E03", "E04", "E05", "E06",
       "R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08", "R09", "R10", "R11", "S01", "S02", "S03", "S04", "S05", "S06", "S07"]


def ids():
    props = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        props[p["id"][:3]] = p["id"]
    return props


def tests(root):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/x",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    xml = os.path.join(root, "..", os.path.basename(root) + ".xml")
    if os.path.exists(xml):
        os.remove(xml)
    try:
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=30",
                        "--doctest-modules", "--doctest-glob=*.rst", "-o", "junit_family=xunit2", "--junitxml=" + xml,
                        "knx_stack", "docs/source/intro.rst"], cwd=root, env=env, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return STABLE <= passed(xml)


def passed(xml):
    try:
        t = ET.parse(xml)
    except (OSError, ET.ParseError):
        return set()
    return {c.get("classname") + "::" + c.get("name") for c in t.iter("testcase") if len(c) == 0 or all(x.tag.startswith("system") for x in c)}


def run_checks(root, rel, props, env0, only=None):
    order = []
    for k, v in FIRST:
        if k in rel:
            order += v
    order += [x for x in ALL if x not in order]
    noans = []
    for short in (only or order):
        env = dict(env0, VERIF_REPO=root)
        try:
            r = subprocess.run([os.path.join(VERIF, "check"), props[short]], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=400, cwd=VERIF)
            code, text = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            code, text = -1, "timeout"
        if code == 1 and "VIOLATION" in text:
            return "caught", short, noans
        if code != 0:
            noans.append((short, code, text[-200:]))
    return ("noanswer" if noans else "alive"), None, noans


def work(job):
    i, rel, kind, line, old, text, new = job
    name = mp.current_process().name.split("-")[-1]
    root = "/tmp/mut/w%s" % name
    if not os.path.exists(root):
        shutil.copytree(REPO, root, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    f = os.path.join(root, rel)
    keep = open(f, "rb").read()
    r = {"n": i, "file": rel, "kind": kind, "line": line, "old": old[:200], "new": text[:200]}
    try:
        with open(f, "wb") as h:
            h.write(new)
        if not tests(root):
            r["verdict"] = "tests"
        else:
            t = time.time()
            v, by, no = run_checks(root, rel, PROPS, dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick",
                                                         VERIF_EVIDENCE="/tmp/mut/ev%s" % name))
            r.update(verdict=v, by=by, noans=no, secs=round(time.time() - t, 1))
    finally:
        with open(f, "wb") as h:
            h.write(keep)
    return r


PROPS = ids()


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--only", default="")
    p.add_argument("--jobs", type=int, default=8)
    p.add_argument("--list", action="store_true")
    a = p.parse_args()
    jobs = []
    for d, ds, fs in os.walk(os.path.join(REPO, "knx_stack")):
        ds[:] = [x for x in ds if x not in ("tests", "__pycache__")]
        for f in sorted(fs):
            full = os.path.join(d, f)
            rel = os.path.relpath(full, REPO)
            if not f.endswith(".py") or a.only not in rel:
                continue
            for m in mutants(full):
                jobs.append((len(jobs), rel) + m)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["old"], r["new"], r["kind"]))
    jobs = [j for j in jobs if (j[1], j[3], j[4][:200], j[5][:200], j[2]) not in done]
    print(len(jobs), "mutants")
    if a.list:
        return
    os.makedirs("/tmp/mut", exist_ok=True)
    with mp.Pool(a.jobs) as pool, open(a.out, "a") as h:
        for r in pool.imap_unordered(work, jobs, chunksize=1):
            h.write(json.dumps(r) + "\n")
            h.flush()


if __name__ == "__main__":
    main()
