"""A host of the library, of its own: run as a program by the checks of S09 and S10.

It sets itself up as asked (decimal context, random state, logging, threads ...), runs
the workloads of the other properties in small, and writes down what became of them,
and, as a watching host, what the library did to it.
"""

import asyncio
import builtins
import codecs
import copyreg
import ctypes  # noqa: F401
import decimal
import faulthandler
import gc
import json
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import sysconfig
import threading
import time
import traceback
import tracemalloc
import types
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
STDLIB = {os.path.realpath(sysconfig.get_path(x)) + os.sep for x in ("stdlib", "platstdlib", "purelib", "platlib")}


# --------------------------------------------------------------------------- #
# whose doing something is


def doer(frame):
    """The nearest code which is not of the standard library: "library", "harness"."""
    while frame is not None:
        f = os.path.realpath(frame.f_code.co_filename)
        if f.startswith(HERE + os.sep):
            return "harness", None
        if f.startswith(REPO + os.sep):
            return "library", "%s:%d" % (os.path.relpath(f, REPO), frame.f_lineno)
        frame = frame.f_back
    return "nobody", None


BY_ANY = (
    "subprocess.Popen", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn",
    "os.startfile", "pty.spawn",
)
BY_LIBRARY = (
    "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate",
    "os.chmod", "os.chown", "os.utime", "os.chdir", "os.fchdir", "os.kill", "os.killpg", "os.putenv", "os.unsetenv",
    "os.setxattr", "os.lockf", "shutil.", "tempfile.", "sqlite3.", "signal.pthread_kill", "_thread.start_new_thread",
    "_thread.start_joinable_thread", "sys.settrace", "sys.setprofile", "sys.addaudithook", "resource.setrlimit",
    "syslog.", "webbrowser.", "urllib.", "http.", "ftplib.", "smtplib.", "fcntl.", "time.sleep", "faulthandler.",
)


class Watch:
    """What the library does to its host."""

    def __init__(self):
        self.found = []
        self.seen = {}
        self.sockets = False  # may it have any
        self.on = False
        self.where = "import"

    def blame(self, what, site):
        if len(self.found) < 40:
            self.found.append("%s: %s (%s)" % (self.where, what, site))

    def audit(self, event, args):
        if not self.on:
            return
        if event in ("open",):
            path, mode, flags = (args + (None, None, None))[:3]
            writes = isinstance(mode, str) and any(c in mode for c in "wax+")
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                writes = True
            if not writes:
                return
        elif event.startswith("socket."):
            if self.sockets:
                return
        elif not event.startswith(BY_ANY) and not event.startswith(BY_LIBRARY):
            return
        who, site = doer(sys._getframe(1))
        self.seen[event + "/" + who] = self.seen.get(event + "/" + who, 0) + 1
        if who == "library":
            self.blame("%s %s" % (event, repr(args)[:120]), site)


class Said:
    """Standard output or error of the host."""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self, watch, name):
        self.watch, self.name = watch, name

    def write(self, text):
        who, site = doer(sys._getframe(1))
        if who == "library" and self.watch.on:
            self.watch.blame("wrote %r to %s" % (text[:80], self.name), site)
        return len(text)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        return {"stdout": 1, "stderr": 2}[self.name]  # what comes there is seen as well

    def settled(self, what):
        who, site = doer(sys._getframe(2))
        if who == "library" and self.watch.on:
            self.watch.blame("%s of %s" % (what, self.name), site)

    def reconfigure(self, **kw):
        self.settled("reconfigure %r" % kw)

    def close(self):
        self.settled("close")

    def detach(self):
        self.settled("detach")
        return self

    @property
    def buffer(self):
        return self


class Last(logging.Handler):
    """In the place of the handler of last resort."""

    def emit(self, record):
        pass


# --------------------------------------------------------------------------- #
# the settings of a process


def settings():
    """What is cheap to look at."""
    root = logging.getLogger()
    c = decimal.getcontext()
    d = decimal.DefaultContext
    return {
        "handlers of the root logger": list(root.handlers),
        "level of the root logger": root.level,
        "filters of the root logger": list(root.filters),
        "logging.disable": root.manager.disable,
        "logging.raiseExceptions": logging.raiseExceptions,
        "logging.lastResort": logging.lastResort,
        "logger class": logging.getLoggerClass(),
        "log record factory": logging.getLogRecordFactory(),
        "level names": dict(logging._levelToName) if hasattr(logging, "_levelToName") else None,
        "other loggers": {
            n: (x.level, list(x.handlers), x.disabled, x.propagate)
            for n, x in list(root.manager.loggerDict.items())
            if isinstance(x, logging.Logger) and n.partition(".")[0] not in ("knx_stack", "tests")
        },
        "decimal context": (repr(c), sorted(x.__name__ for x, on in c.flags.items() if on)),
        "default decimal context": (repr(d), sorted(x.__name__ for x, on in d.flags.items() if on)),
        "random state": random.getstate(),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "warnings filters": list(warnings.filters),
        "showwarning": warnings.showwarning,
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "memory tracing": tracemalloc.is_tracing(),
        "error handlers": [
            codecs.lookup_error(n)
            for n in ("strict", "ignore", "replace", "backslashreplace", "surrogateescape", "xmlcharrefreplace", "namereplace")
        ],
        "pickling": dict(copyreg.dispatch_table),
        "start of processes": start_method(),
        "tracing": (sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile()),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()),
        "event loop policy": policy(),
        "hooks": (
            sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook, sys.breakpointhook,
            sys.get_asyncgen_hooks(), sys.get_coroutine_origin_tracking_depth(),
        ),
        "standard streams": (sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__),
        "sys.path": list(sys.path),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks)),
        "sys.argv": list(sys.argv),
        "sys.dont_write_bytecode": sys.dont_write_bytecode,
        "socket timeout": socket.getdefaulttimeout(),
        "int digits": sys.get_int_max_str_digits() if hasattr(sys, "get_int_max_str_digits") else None,
        "time zone": (time.tzname, time.timezone),
    }


def start_method():
    m = sys.modules.get("multiprocessing.context")
    return m and m._default_context.get_start_method(allow_none=True)


def policy():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return asyncio.get_event_loop_policy()


def system():
    """What takes more."""
    signals = {}
    for s in signal.valid_signals():
        try:
            signals[int(s)] = signal.getsignal(s)
        except (OSError, ValueError):
            pass
    status = {}
    for line in open("/proc/self/status"):
        name, _, value = line.partition(":")
        if name in ("Umask", "Uid", "Gid", "SigBlk", "SigIgn", "Threads", "NoNewPrivs"):
            status[name] = value.strip()
    return {
        "signal handlers": signals,
        "process status": status,
        "locale": locale.setlocale(locale.LC_ALL),
        "resource limits": {
            n: resource.getrlimit(getattr(resource, n)) for n in dir(resource) if n.startswith("RLIMIT_")
        },
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "faulthandler": faulthandler.is_enabled(),
        "builtins": dict(vars(builtins)),
        "standard library": standard(),
    }


def callables(d):
    return {n: x for n, x in list(d.items()) if callable(x) or isinstance(x, (staticmethod, classmethod, property))}


def standard():
    """Functions and classes of the standard library's modules, and the classes' own."""
    out = {}
    for name in list(sys.modules):
        m = sys.modules.get(name)
        if name.partition(".")[0] not in sys.stdlib_module_names or not isinstance(m, types.ModuleType):
            continue
        if name in ("__main__", "builtins", "sys"):
            continue
        for n, x in callables(vars(m)).items():
            if n.startswith("_"):
                continue
            out[name + "." + n] = x
            if isinstance(x, type) and x.__module__ == name and n == x.__name__:
                for a, y in callables(vars(x)).items():
                    if not a.startswith("_abc"):
                        out["%s.%s.%s" % (name, n, a)] = y
    return out


def differences(a, b):
    out = []
    for n in a:
        x, y = a[n], b[n]
        if n == "builtins":
            for i in set(x) | set(y):
                if i != "_" and (i not in x or i not in y or x[i] is not y[i]):
                    out.append("builtins.%s is another" % i)
        elif n == "standard library":
            for i in x:  # more of it may be imported
                if i not in y:
                    out.append("%s is gone" % i)
                elif x[i] is not y[i]:
                    out.append("%s is another" % i)
        elif n == "other loggers":
            for i in x:
                if i in y and x[i] != y[i]:
                    out.append("logger %s was %r and is %r" % (i, x[i], y[i]))
        elif n in ("sys.path", "import hooks") and x != y:
            out.append("%s changed" % n)
        elif x != y:
            out.append("%s: was %s and is %s" % (n, short(x, y), short(y, x)))
    return out


def short(x, other):
    if isinstance(x, dict) and isinstance(other, dict):
        x = {k: v for k, v in x.items() if k not in other or other[k] != v}
    return repr(x)[:200]


# --------------------------------------------------------------------------- #
# settings to run under


def set_up(what):
    """What a host may have done before, in this process."""
    for name, value in what:
        if name == "decimal":
            make_context(value)
        elif name == "gc":
            if value == 0:
                gc.disable()
            else:
                gc.set_threshold(*value)
        elif name == "seed":
            random.seed(value)
        elif name == "digits":
            sys.set_int_max_str_digits(value)
        elif name == "logging":
            if value == "disabled":
                logging.disable(logging.CRITICAL)
            else:
                logging.basicConfig(level=getattr(logging, value), stream=open(os.devnull, "w"))
        elif name == "streams":
            sys.stdin = sys.stdout = sys.stderr = None
        elif name == "switch":
            sys.setswitchinterval(value)
        elif name == "timeout":
            socket.setdefaulttimeout(value)
        elif name == "locale":
            locale.setlocale(locale.LC_ALL, value)
        elif name == "cwd":
            os.chdir(value)
        elif name == "umask":
            os.umask(value)
        elif name == "environment":
            for n in list(os.environ):
                if n not in ("VERIF_REPO",):
                    del os.environ[n]
            os.environ.update(value)
        elif name == "tz":
            os.environ["TZ"] = value
            time.tzset()
        elif name == "recursion":
            sys.setrecursionlimit(value)
        elif name == "thread":
            pass
        else:
            raise ValueError(name)


def make_context(v):
    traps = [getattr(decimal, n) for n in v.get("traps", ("InvalidOperation", "DivisionByZero", "Overflow"))]
    c = decimal.Context(
        prec=v.get("prec", 28), rounding=v.get("rounding", decimal.ROUND_HALF_EVEN), traps=traps,
        Emin=v.get("Emin", -999999), Emax=v.get("Emax", 999999), clamp=v.get("clamp", 0),
        capitals=v.get("capitals", 1), flags=[],
    )
    decimal.setcontext(c)
    d = decimal.DefaultContext
    for n in ("prec", "rounding", "Emin", "Emax", "clamp", "capitals"):
        setattr(d, n, getattr(c, n))
    for t in d.traps:
        d.traps[t] = t in traps


# --------------------------------------------------------------------------- #
def workloads(cfg, watch, report):
    from mon import core, registry

    class Stop(BaseException):
        pass

    class Small(core.Ctx):
        """A part of the cases of another property."""

        def __init__(self, pid, cap, seed, seconds, skip, only=None, look=None):
            core.Ctx.__init__(self, pid, cfg.get("tier", "quick"), seed, only)
            self.cap, self.skip, self.look = cap, skip, look
            self.until = time.monotonic() + seconds

        def left_out(self, section):
            return any(x in section for x in self.skip)

        def cases(self, section, n):
            if self.left_out(section):
                return iter(())
            return core.Ctx.cases(self, section, min(n, self.cap))

        def sweep(self, section, items):
            if self.left_out(section):
                return
            items = list(items)
            r = self.rng("part", section)
            keep = set(range(len(items)))
            if len(items) > 4 * self.cap:
                keep = set(r.sample(range(len(items)), 4 * self.cap))
            for i, item in enumerate(items):
                if i in keep and (not self.only or self.only == (section, i)):
                    self.begin(section, i)
                    yield item

        def begin(self, section, index):
            if self.look:
                self.look()
            if time.monotonic() > self.until:
                raise Stop()
            core.Ctx.begin(self, section, index)

        def limit(self, quick, thorough=3000):
            pass

        def floor(self, **mins):
            pass

    until = time.monotonic() + cfg["total"]
    for pid in cfg["props"]:
        only = cfg.get("only")
        if watch:
            watch.where = "the workload of " + pid
            watch.sockets = pid[0] == "S"
            watch.on = True
        s = Small(
            pid, cfg["cap"], cfg["seed"], min(cfg["seconds"], until - time.monotonic()), cfg.get("skip", {}).get(pid, []),
            tuple(only) if only else None, watch and watch.look,
        )
        r = dict(pid=pid, end="done")
        try:
            registry.find(pid)(s)
        except Stop:
            r["end"] = "time"
        except core.Violation as v:
            r.update(end="violation", what=str(v.what)[:600])
        except core.Inconclusive as e:
            r.update(end="inconclusive", what=str(e)[:600])
        except Exception as e:
            text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
            r.update(end="error", what="%s: %s" % (type(e).__name__, str(e)[:300]), traceback=text[-3000:])
        if watch:
            watch.look(True)
            watch.on = False
        r.update(
            section=s.section, index=s.index, cases=s.evaluations, oracle=s.checks,
            events=sum(n for x, n in s.counts.items() if x.startswith("events/")),
            distinct=sum(len(x) for x in s.distinct.values()), trace=core.jsonable(s.trace[-30:]),
        )
        report["runs"].append(r)
        logging.getLogger("knx_stack").handlers[:] = []
        logging.getLogger("knx_stack").setLevel(logging.NOTSET)


def modules():
    """The modules of the library, without its tests and examples."""
    root = os.path.join(REPO, "knx_stack")
    for at, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "__pycache__", "examples") and d.isidentifier())
        for f in sorted(files):
            if f.endswith(".py") and f != "__main__.py":
                rel = os.path.relpath(os.path.join(at, f[:-3]), REPO).split(os.sep)
                if rel[-1] == "__init__":
                    rel.pop()
                if all(x.isidentifier() for x in rel) and os.path.exists(os.path.join(at, "__init__.py")):
                    yield ".".join(rel)


def here(f):
    f()


def elsewhere(f):
    """In another thread."""
    gone = []

    def run():
        try:
            f()
        except BaseException as e:
            gone.append(e)

    threading.stack_size(64 << 20)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if gone:
        raise gone[0]


def host(cfg, report):
    import importlib

    watch = None
    sys.path[:0] = [REPO, HERE]
    if cfg.get("watch"):
        watch = Watch()
        logging.lastResort = Last()
        sys.stdout, sys.stderr = Said(watch, "stdout"), Said(watch, "stderr")
        base = settings()
        base.update(system())
        state = dict(base=base, looks=0)

        def look(all_=False):
            watch.on = False
            state["looks"] += 1
            now = settings()
            if all_:
                now.update(system())
            d = differences({n: state["base"][n] for n in now}, now)
            for x in d:
                watch.blame(x, "after it")
            for n in now:  # each is told once
                if now[n] != state["base"][n] and n != "standard library":
                    state["base"][n] = now[n]
            watch.on = True

        watch.look = look
        sys.addaudithook(watch.audit)
        watch.on = True
    threads = [v for n, v in cfg.get("set", []) if n == "thread"]

    def load():
        names = []
        for name in ["knx_stack"] + list(modules()):
            try:
                importlib.import_module(name)
                names.append(name)
            except ImportError as e:
                report["not imported"] = report.get("not imported", []) + ["%s: %s" % (name, e)]
        report["modules"] = len(names)

    (elsewhere if "import" in threads else here)(load)
    if watch:
        watch.look(True)
        watch.on = False
    report["runs"] = []
    (elsewhere if "work" in threads else here)(lambda: workloads(cfg, watch, report))
    if watch:
        report["found"] = watch.found
        report["looks"] = state["looks"]
        report["audited"] = watch.seen
        report["settings"] = len(state["base"]) + len(state["base"]["standard library"])


def main():
    cfg = json.loads(sys.argv[1])
    report = dict(settings=cfg.get("set", []))
    try:
        set_up(cfg.get("set", []))
        host(cfg, report)
    except BaseException as e:
        report["failed"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    with open(cfg["report"], "w", encoding="utf-8") as f:
        json.dump(report, f, default=repr)
    os._exit(0)


if __name__ == "__main__":
    main()
