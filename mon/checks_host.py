"""The library and the process it runs in."""

import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import core
from .core import Inconclusive, Violation

HOSTED = os.path.join(core.HERE, "mon", "hosted.py")
CODEC = (
    "V01 V02 V03 V04 V05 V06 T01 T02 T03 T04 T05 T06 E01 E02 E03 E04 E05 E06 "
    "R01 R02 R03 R04 R05 R06 R07 R08 R09 R10 R11"
).split()
SESSION = ["S01", "S02", "S03", "S04", "S05", "S06", "S07"]
# not of the library, or with settings of their own
SKIP = {
    "S04": ["program", "start"], "S05": ["program", "aged"], "S06": ["program"],
    "S07": ["threads"],
}


class Hosts:
    """Processes of their own to run the library in."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="knxmon-host-")
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cfg, options=(), env=None, limit=400):
        self.n += 1
        path = os.path.join(self.dir, "report%d.json" % self.n)
        place = os.path.join(self.dir, "place%d" % self.n)
        os.mkdir(place)
        cfg = dict(cfg, report=path)
        e = dict(core.ENVIRON, VERIF_REPO=core.REPO, PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
        for n, v in (env or {}).items():
            if v is None:
                e.pop(n, None)
            else:
                e[n] = v
        try:
            p = subprocess.run(
                [sys.executable] + list(options) + [HOSTED, json.dumps(cfg)],
                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                env=e, cwd=place, timeout=limit, umask=core.UMASK,
            )
        except subprocess.TimeoutExpired:
            raise Inconclusive("a host gave no answer within %d s" % limit)
        r = dict(failed="ended with %r: %s" % (p.returncode, p.stderr[-2000:].decode("utf-8", "replace")), runs=[])
        if os.path.exists(path):
            with open(path, encoding="utf-8") as f:
                r = json.load(f)
        r["out"] = p.stdout + p.stderr
        r["left"] = sorted(os.listdir(place))
        shutil.rmtree(place, ignore_errors=True)
        return r


def together(jobs):
    with ThreadPoolExecutor(max_workers=max(2, min(8, os.cpu_count() or 2))) as pool:
        return list(pool.map(lambda j: j(), jobs))


# --------------------------------------------------------------------------- #
def S09(ctx):
    """The library leaves its host alone."""
    ctx.limit(700)
    ctx.rule = (
        "the library is imported, and the workloads of the other properties are run in small, "
        "in processes of their own whose audit events, standard streams and settings are "
        "watched: what is opened, started, printed and slept is attributed to the code which "
        "does it, and the settings of the process are compared with what they were before, "
        "after every case; non-trivial: distinct situations of the workloads"
    )
    seeds = [ctx.seed] if not ctx.thorough else [ctx.seed + 1000 * j for j in range(4)]
    items = [(p, s) for s in seeds for p in CODEC + SESSION]
    with Hosts() as hosts:

        def job(pid, seed):
            return lambda: hosts.run(
                dict(
                    watch=True, props=[pid], cap=ctx.scale(40, 300), seed=seed, skip=SKIP,
                    seconds=ctx.scale(90, 500), total=ctx.scale(90, 500), tier="quick",
                ),
                limit=ctx.scale(400, 1500),
            )

        todo = [x for i, x in enumerate(items) if not ctx.only or ctx.only == ("host", i)]
        results = together([job(*x) for x in todo])
        for item, r in zip(ctx.sweep("host", items), results):
            pid, seed = item
            if r.get("failed"):
                raise Inconclusive("the workload of %s: %s" % (pid, r["failed"]))
            for x in r["found"]:
                ctx.event("found", x)
            ctx.expect(not r["found"], "the library changes its host: %s" % "; ".join(r["found"][:4]))
            ctx.expect(not r["out"], "running the workload of %s, the host prints %r" % (pid, r["out"][:300]))
            ctx.expect(not r["left"], "running the workload of %s leaves %r behind" % (pid, r["left"][:5]))
            for run in r["runs"]:
                ctx.event("run", pid, run["end"], run["cases"])
                ctx.count("runs " + run["end"])
                ctx.count("cases", run["cases"])
                ctx.count("oracle evaluations of the workloads", run["oracle"])
                ctx.see("workload", pid, run["distinct"], run["events"])
            ctx.count("looks at the settings", r["looks"])
            ctx.counts["settings compared"] = r["settings"]
            ctx.counts["modules imported"] = r["modules"]
            for n, v in r["audited"].items():
                ctx.count("audited/" + n, v)
            ctx.checks += r["looks"]
        ctx.sample({"settings": r["settings"], "modules": r["modules"], "looks": r["looks"]} if todo else {})
    ctx.floor(**{"looks at the settings": 1500, "events/run": len(items), "modules imported": 1})


# --------------------------------------------------------------------------- #
def surroundings(rng, thorough):
    """Hosts: (name, what they set, options, environment, workloads, weight)."""
    some = [p for p in CODEC + ["S01", "S02", "S03", "S04", "S06", "S07"]]
    numbers = ["V01", "V03", "V04", "V05", "V06", "E01", "E03", "R01", "R03", "R11", "S03"]
    roundings = ["ROUND_UP", "ROUND_DOWN", "ROUND_CEILING", "ROUND_FLOOR", "ROUND_HALF_UP", "ROUND_HALF_DOWN", "ROUND_05UP"]
    all_traps = ["InvalidOperation", "DivisionByZero", "Overflow", "Underflow", "Inexact", "Rounded", "Subnormal", "Clamped", "FloatOperation"]
    out = [
        ("decimal precision", [["decimal", {"prec": rng.choice([1, 2, 3, 4, 6])}]], [], {}, numbers, 8),
        ("decimal rounding", [["decimal", {"rounding": rng.choice(roundings[:4])}]], [], {}, numbers, 8),
        ("decimal traps", [["decimal", {"traps": all_traps}]], [], {}, numbers, 8),
        ("decimal without traps", [["decimal", {"traps": [], "prec": rng.choice([3, 9]), "Emax": 5, "Emin": -5}]], [], {}, numbers, 8),
        ("optimised", [], ["-O"], {}, some, 6),
        ("optimised, without texts", [], ["-OO"], {}, some, 6),
        ("hash seed", [], [], {"PYTHONHASHSEED": str(rng.randrange(1, 1 << 32))}, some, 5),
        ("another hash seed", [], [], {"PYTHONHASHSEED": str(rng.randrange(1, 1 << 32))}, some, 5),
        ("random hash seed", [], [], {"PYTHONHASHSEED": "random"}, some, 3),
        ("warnings are errors", [], ["-W", "error"], {"PYTHONWARNINGS": None}, CODEC, 3),
        ("another thread", [["thread", "work"]], [], {}, some, 5),
        ("an import in another thread", [["thread", "import"]], [], {}, some, 3),
        ("two other threads", [["thread", "import"], ["thread", "work"]], [], {}, some, 2),
        ("garbage collection all the time", [["gc", [1, 1, 1]]], [], {}, some, 2),
        ("no garbage collection", [["gc", 0]], [], {}, some, 3),
        ("everything is logged", [["logging", "DEBUG"]], [], {}, some, 4),
        ("nothing is logged", [["logging", "disabled"]], [], {}, [p for p in some if p != "S06"], 3),
        ("no standard streams", [["streams", None]], [], {}, some, 3),
        ("an empty environment", [["environment", {}]], ["-I"], {}, some, 3),
        (
            "another environment",
            [["environment", {"HOME": "/nonexistent", "LANG": "tr_TR.UTF-8", "TERM": "dumb", "COLUMNS": "7", "DEBUG": "1", "NO_COLOR": "1", "KNX": "1"}],
             ["cwd", "/"], ["umask", 0o777]],
            [], {}, some, 3,
        ),
        ("ASCII", [], ["-X", "utf8=0"], {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "PYTHONIOENCODING": "ascii"}, some, 3),
        ("another time zone", [["tz", rng.choice(["NZ-13", "HST10", "XXX-05:45"])]], [], {}, some, 2),
        ("seeded", [["seed", rng.randrange(10)]], [], {}, some, 3),
        ("few digits", [["digits", 640]], [], {}, some, 3),
        ("development mode", [], ["-X", "dev"], {"PYTHONASYNCIODEBUG": "1"}, some, 3),
        ("a socket timeout", [["timeout", 0.5]], [], {}, ["S01", "S02", "S03", "S04", "S06"], 5),
        ("slow switches", [["switch", 0.5]], [], {}, some, 2),
    ]
    if thorough:
        for m in roundings:
            out.append(("decimal " + m, [["decimal", {"rounding": m, "prec": rng.choice([3, 5, 28])}]], [], {}, numbers, 10))
        for j in range(12):
            out.append(("hash seed %d" % j, [], [], {"PYTHONHASHSEED": str(rng.randrange(1, 1 << 32))}, some, 6))
    return out


def S10(ctx):
    """Results do not depend on the host."""
    ctx.limit(700)
    ctx.rule = (
        "the workloads of the other properties, in small, with their oracles, in processes "
        "which are set up differently: decimal context, optimisation, hash seed, warnings, "
        "thread, garbage collection, logging, streams, environment, encoding, time zone; a "
        "case which fails there and not in a plain process is a violation; non-trivial: "
        "distinct (host, workload, situations)"
    )
    items = surroundings(ctx.rng("surroundings"), ctx.thorough)
    with Hosts() as hosts:

        def cfg(props, weight, set_):
            return dict(
                props=props, cap=ctx.scale(weight, 6 * weight), seed=ctx.seed, seconds=ctx.scale(25, 100), total=ctx.scale(120, 600),
                skip=dict({p: ["aged", "program", "threads", "udp", "start"] for p in CODEC + SESSION}), tier="quick", set=set_,
            )

        def job(item):
            name, set_, options, env, props, weight = item
            return lambda: hosts.run(cfg(props, weight, set_), options, env, limit=ctx.scale(500, 3000))

        todo = [x for i, x in enumerate(items) if not ctx.only or ctx.only == ("host", i)]
        results = together([job(x) for x in todo])
        for item, r in zip(ctx.sweep("host", items), results):
            name, set_, options, env, props, weight = item
            if r.get("failed"):
                p = hosts.run(cfg(props, weight, []))
                if p.get("failed"):
                    raise Inconclusive("a plain host: %s" % p["failed"])
                raise Violation("in a host with %s (%r %r %r): %s" % (name, set_, options, env, r["failed"]))
            for run in r["runs"]:
                ctx.event("run", name, run["pid"], run["end"], run["cases"])
                ctx.count("runs " + run["end"])
                ctx.count("cases", run["cases"])
                ctx.count("oracle evaluations of the workloads", run["oracle"])
                ctx.see("run", name, run["pid"], run["distinct"])
                bad = run["end"] in ("violation", "error")
                if bad:
                    p = hosts.run(cfg([run["pid"]], weight, []))
                    ctx.count("plain runs")
                    ctx.expect(
                        any(x["end"] in ("violation", "error") for x in p["runs"]) or p.get("failed"),
                        "with %s (%r %r %r), unlike in a plain host, %s of the workload of %s: %s"
                        % (name, set_, options, env, (run["section"], run["index"]), run["pid"], run.get("what")),
                    )
                    ctx.count("failing in a plain host too")
                else:
                    ctx.checks += 1
        ctx.sample({"host": name, "runs": [(x["pid"], x["end"], x["cases"]) for x in r["runs"]][:8]} if todo else {})
    ctx.floor(**{"oracle evaluations of the workloads": 100000, "runs done": 300})
