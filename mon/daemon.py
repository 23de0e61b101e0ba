"""The daemon, built from the current tree, on an emulated bus device."""

import glob
import mmap
import os
import select
import shutil
import signal
import socket
import struct
import subprocess
import tempfile
import time

from .core import REPO, Inconclusive, Violation

HERE = os.path.dirname(os.path.abspath(__file__))
WRAPS = ["open", "open64", "openat", "bind", "listen", "accept", "accept4",
         "read", "readv", "recv", "write", "writev", "close", "send", "sendto", "sendmsg",
         "time", "clock_gettime", "gettimeofday"]
BASE = ["-g", "-w", "-fno-omit-frame-pointer", "-std=gnu11"] + [
    "-Wl,--wrap=" + w for w in WRAPS
]
BUILDS = {
    "plain": ["cc", "-O1"],
    "asan": [
        "gcc", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-D_FORTIFY_SOURCE=0",
    ],
    "msan": [
        "clang", "-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins",
        "-fno-sanitize-recover=all", "-Wno-implicit-function-declaration",
    ],
    "valgrind": ["cc", "-O0"],
    "faulty": ["cc", "-O0"],  # every access to its device goes through the shim
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "MSAN_OPTIONS": "exitcode=77",
}
PACKET = 56


class Workshop:
    """A scratch folder with the builds."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="knxmon-")
        self.built = {}
        self.running = []
        return self

    def __exit__(self, *exc):
        for d in self.running:
            d.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def build(self, name):
        if name not in self.built:
            out = os.path.join(self.dir, name)
            src = sorted(glob.glob(os.path.join(REPO, "daemon", "*.c")))
            if not src:
                raise Inconclusive("there is no daemon to build")
            p = subprocess.run(
                BUILDS[name] + BASE + ["-o", out] + src + [os.path.join(HERE, "shim.c")],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
            )
            if p.returncode:
                raise Inconclusive("the daemon does not build: %s" % p.stdout.decode()[-2000:])
            self.built[name] = out
        return self.built[name]

    def start(self, ctx, build="plain", **kw):
        d = Daemon(ctx, self, build, **kw)
        self.running.append(d)
        return d


def run_once(ctx, shop, args, port=None, build="plain", bound=20, refused=None):
    """Run it with these arguments until it ends by itself; (code, notes, output,
    errors), the code being None when it goes on."""
    r, w = os.pipe()
    env = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C", "KNXMON_NOTE": str(w)}
    env.update(ENV)
    if port:
        env["KNXMON_PORT"] = str(port)
    if refused:  # the device is there, and can not be opened to be read and written
        env["KNXMON_OPEN"] = str(refused)
        args = [x.replace("{bus}", "knxmon:%d" % w) for x in args]
        env["KNXMON_USUAL"] = str(w)
    out = tempfile.TemporaryFile(dir=shop.dir)
    err = tempfile.TemporaryFile(dir=shop.dir)
    with open(os.devnull, "rb") as null:
        p = subprocess.Popen(
            [shop.build(build)] + args, stdin=null, stdout=out, stderr=err, env=env,
            pass_fds=[w], cwd=shop.dir, start_new_session=True,
        )
    os.close(w)
    t0 = time.monotonic()
    try:
        while p.poll() is None:
            with open("/proc/%d/stat" % p.pid) as f:
                x = f.read().rpartition(")")[2].split()
            # asleep, or busy, for long
            if x[0] in "SD" and time.monotonic() - t0 > bound or int(x[11]) + int(x[12]) > 3000:
                break
            if time.monotonic() - t0 > 240:
                raise Inconclusive("too slow")
            time.sleep(0.002)
        code = p.poll()
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    notes = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        notes += x
    os.close(r)
    texts = []
    for f in (out, err):
        f.seek(0)
        texts.append(f.read().decode(errors="replace"))
        f.close()
    ctx.event("ran", args, code)
    return [code, notes.decode().split("\n")[:-1]] + texts


class Gone(Violation):
    pass


class CutShort(Exception):
    """A lenient run can not go on; nothing is wrong with the memory."""


class Daemon:
    def __init__(
        self, ctx, shop, build, long_option=False, sndbuf=None, lenient=False,
        name=None, usual=False, port=None, before=(), after=(),
    ):
        self.ctx, self.build = ctx, build
        self.lenient = lenient  # only crashes and reports count
        exe = shop.build(build)
        self.bus, theirs = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.bus.setblocking(False)
        self.bus.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        r, w = os.pipe()
        fds = [theirs.fileno(), w]
        n = len(os.listdir(shop.dir))
        self.err = os.path.join(shop.dir, "err%d" % n)
        env = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C", "KNXMON_NOTE": str(w)}
        env.update(ENV)
        if sndbuf:
            env["KNXMON_SNDBUF"] = str(sndbuf)
        if port:
            env["KNXMON_PORT"] = str(port)
        if build == "faulty":
            with tempfile.TemporaryFile(dir=shop.dir) as f:
                f.truncate(4096)
                self.fault = mmap.mmap(f.fileno(), 4096)
                extra = os.dup(f.fileno())
            fds.append(extra)
            env["KNXMON_FAULT"] = str(extra)
        self.device = "knxmon:%d" % theirs.fileno()
        if usual:  # the device it takes when none is named
            env["KNXMON_USUAL"] = str(theirs.fileno())
            self.device = "/dev/hidraw1"
            cmd = [exe]
        elif isinstance(long_option, str):
            self.device = "knxmon:%d%s" % (theirs.fileno(), name or "")
            cmd = [exe] + (long_option % self.device).split(" ")
        else:
            cmd = [exe, "--dev-hidraw" if long_option else "-d", self.device]
        cmd[1:] = list(before) + cmd[1:] + list(after)
        if build == "valgrind":
            cmd = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes"] + cmd
        with open(self.err, "wb") as err, open(os.devnull, "r+b") as null:
            self.p = subprocess.Popen(
                cmd, stdin=null, stdout=null, stderr=err, env=env,
                pass_fds=fds, cwd=shop.dir, start_new_session=True,
            )
        theirs.close()
        for fd in fds[1:]:
            os.close(fd)
        self.frozen = False
        self.slow = 20 if build == "valgrind" else 5 if build != "plain" else 1
        self.clients = []
        self.seen = []  # what the bus got, in order
        self.written = self.packets = self.queries = 0  # octets of the clients; packets it got and sent
        self.sent = []  # what the bus sent
        text = b""
        end = time.monotonic() + 60
        while b"listen" not in text or b"open" not in text or not text.endswith(b"\n"):
            if select.select([r], [], [], 0.5)[0]:
                x = os.read(r, 4096)
                if not x:
                    break
                text += x
            if time.monotonic() > end:
                break
        os.close(r)
        self.notes = text.decode().split("\n")
        self.asked = self.port = None
        for line in self.notes:
            if line.startswith("listen"):
                _, a, b = line.split()
                self.asked, self.port = int(a), int(b)
        if self.port is None:
            self.dead("it does not start listening (%r)" % text)
        paths = [x[5:] for x in self.notes if x.startswith("path ")]
        if paths != [self.device]:
            self.dead("told to use the device %s it opens %s" % (self.device, paths))
        if "open 1 0" not in self.notes:
            self.dead("it does not open its device for reading and writing (%r)" % text)
        ctx.event("daemon", build)

    # ---- verdicts about the process ------------------------------------
    def stderr(self):
        with open(self.err, "rb") as f:
            return f.read().decode(errors="replace")

    def alive(self):
        return self.p.poll() is None

    def dead(self, why):
        for _ in range(50):  # a report is being written
            if not self.alive():
                break
            time.sleep(0.1)
        code = self.p.poll()
        if self.lenient and code not in (77, -4, -6, -7, -8, -11):
            self.ctx.count("runs cut short")
            raise CutShort(why)
        text = [x for x in self.stderr().split("\n") if not x.startswith("Server:")]
        raise Gone(
            "the daemon (%s build) %s: %s; %s"
            % (
                self.build, "is running" if self.alive() else "ended with %s" % self.p.returncode,
                why, " | ".join(text)[:1500],
            )
        )

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                x = f.read().rpartition(")")[2].split()
        except FileNotFoundError:  # it ended, and was waited for
            return "X", 0
        return x[0], int(x[11]) + int(x[12])

    # ---- faults of the device ------------------------------------------
    def fail(self, read=0, write=0):
        """From now on its device fails so."""
        self.fault[0:8] = struct.pack("ii", read, write)

    def lose(self, accept=0, client=0):
        """The next client to come, or to be read from, is lost so."""
        self.fault[12:20] = struct.pack("ii", accept, client)

    def cut(self, n):
        """The next thing sent to a client is taken up to its first n octets only."""
        self.fault[20:24] = struct.pack("i", n)

    def clock(self, seconds):
        """The clock of its machine is off by so much."""
        self.fault[24:28] = struct.pack("i", seconds)
        self.ctx.event("clock", seconds)

    def failed(self):
        return struct.unpack("i", self.fault[8:12])[0]

    # ---- schedules -------------------------------------------------------
    def freeze(self):
        """It is not scheduled for a while: what comes is found all at once."""
        if not self.frozen:
            os.kill(self.p.pid, signal.SIGSTOP)
            end = time.monotonic() + 10
            while self.alive() and self.cpu()[0] not in "Tt" and time.monotonic() < end:
                time.sleep(0.0002)
            self.frozen = True
            self.ctx.event("frozen")

    def thaw(self):
        if self.frozen:
            os.kill(self.p.pid, signal.SIGCONT)
            self.frozen = False

    def weather(self, rng):
        """One or the other, now and then."""
        r = rng.random()
        if r < 0.12:
            self.freeze()
        elif r < 0.3:
            self.thaw()

    def check(self, why):
        if not self.alive():
            self.dead(why)

    def until(self, cond, why):
        """Serve every socket until cond; no answer of a daemon which is idle, or
        busy with something else for long, is a verdict."""
        t0 = idle0 = time.monotonic()
        last = burnt0 = self.cpu()[1]
        while True:
            moved = self.pump()
            if cond():
                return
            self.thaw()
            if not self.alive():
                self.pump()
                if cond():
                    return
                self.dead(why)
            now = time.monotonic()
            state, used = self.cpu()
            if moved or state not in "SD" or used != last:
                idle0, last = now, used
            if moved:
                burnt0 = used
            if used - burnt0 > 3000 * self.slow:
                self.dead("busy without an answer for 30 s of processor time: " + why)
            if self.lenient and now - idle0 > 3:
                return
            if now - idle0 > 15 * self.slow:
                self.dead("idle without an answer: " + why)
            if now - t0 > 240 * self.slow:
                raise Inconclusive("too slow: " + why)
            fds = [self.bus] + [c.s for c in self.clients if c.open]
            out = [c.s for c in self.clients if c.open and c.out]
            select.select(fds, out, [], 0.2)

    def pump(self):
        moved = False
        while True:
            try:
                x = self.bus.recv(4096)
            except (BlockingIOError, OSError):
                break
            if not x:
                break
            self.seen.append(x)
            self.ctx.event("bus got", x.hex())
            moved = True
            self.packets += 1
            if self.packets > self.written + 1000:  # a line is one octet at least
                self.dead(
                    "the bus got %d packets, the clients wrote %d octets"
                    % (self.packets, self.written)
                )
        for c in self.clients:
            moved |= c.pump()
        return moved

    # ---- the bus -------------------------------------------------------
    def send(self, packet):
        """A packet from the bus."""
        self.sent.append(packet)
        self.queries += 1
        self.ctx.event("bus sends", packet.hex())
        while True:
            try:
                self.bus.send(packet)
                return
            except BlockingIOError:
                n = self.queued()
                self.until(lambda: self.queued() < n, "packets from the bus are not read")
            except OSError as e:
                self.dead("its device is closed (%s)" % e.strerror)

    def queued(self):
        import fcntl
        import termios

        x = fcntl.ioctl(self.bus, termios.TIOCOUTQ, b"\0" * 4)
        return struct.unpack("i", x)[0]

    def connect(self, **kw):
        c = Client(self, **kw)
        self.clients.append(c)
        return c

    def kill(self):
        for c in self.clients:
            c.close()
        if self.p.poll() is None:
            try:
                os.kill(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        self.p.wait()
        self.bus.close()

    def end(self, why="at the end"):
        """Still there, and silent about errors, when it is no longer needed."""
        self.check(why)
        self.kill()
        self.reports(why)

    def reports(self, why):
        text = self.stderr()
        for mark in ("ERROR: AddressSanitizer", "runtime error:", "WARNING: MemorySanitizer"):
            if mark in text:
                self.lenient = False
                self.dead(why)


class Client:
    """A TCP client which records what it gets."""

    def __init__(self, d, rcvbuf=None, reads=True):
        self.d = d
        self.reads = reads
        self.s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.open = False
        self.data = bytearray()
        self.got = 0
        self.out = b""
        self.eof = False
        self.left = 0  # when it closed
        self.s.setblocking(False)
        self.s.connect_ex(("127.0.0.1", d.port))
        d.until(self.connected, "a connection is not established")
        self.open = True
        self.first = 0  # packets sent before it was known to be served

    def connected(self):
        if not select.select([], [self.s], [], 0)[1]:
            return False
        e = self.s.getsockopt(socket.SOL_SOCKET, socket.SO_ERROR)
        if e and self.d.lenient:
            raise CutShort(os.strerror(e))
        if e:
            raise Gone("a connection is refused: %s" % os.strerror(e))
        return True

    def pump(self):
        moved = False
        if not self.open:
            return False
        while self.out:
            try:
                n = self.s.send(self.out)
            except BlockingIOError:
                break
            except OSError:
                self.eof = True
                self.out = b""
                break
            self.out = self.out[n:]
            moved = True
        while self.reads and not self.eof:
            try:
                x = self.s.recv(65536)
            except BlockingIOError:
                break
            except OSError:
                self.eof = True
                break
            if not x:
                self.eof = True
                break
            self.data += x
            self.got += len(x)
            moved = True
            if self.got > 1000 * self.d.queries + 1000000:
                self.d.dead(
                    "a client got %d octets, the bus sent %d packets" % (self.got, self.d.queries)
                )
        if self.eof:
            self.open = False
        return moved

    def write(self, data):
        self.out += data
        self.d.written += len(data)
        self.pump()

    def flush(self):
        self.d.until(lambda: not self.out or not self.open, "what a client sends is not read")

    def lines(self):
        return bytes(self.data).split(b"\n")

    def close(self, how="close"):
        if self.s.fileno() < 0:
            return
        if how == "reset":
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif how == "half":
            try:
                self.s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            return
        self.open = False
        self.left = time.monotonic()
        self.s.close()
