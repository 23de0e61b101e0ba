"""The USB HID daemon: sanitizers and trace monitors."""

import errno
import os
import select
import signal
import socket
import time

from . import age
from .daemon import PACKET, CutShort, Workshop, run_once

HEX = "0123456789abcdef"


def packet(rng, tag=None):
    n = rng.choice([1, 2, 8, 23, 55, 56, 56, 56, rng.randrange(1, 57)])
    x = bytearray(rng.randbytes(n))
    if rng.random() < 0.3:
        x = bytearray(b"\x01\x13" + x)[:PACKET]
    if rng.random() < 0.15:  # as many devices fill them
        j, fill = rng.choice([0, 1, 2, 3, 4, len(x) // 2]), rng.choice([b"\0", b"\0", b"\xff"])
        x = bytearray(rng.choice([fill * len(x[:j]) + x[j:], x[:j] + fill * len(x[j:])]))
    if tag is not None:
        x[0] = tag
    return bytes(x)


def spell(rng, p):
    """The text of a packet, as any client may write it."""
    r = rng.random()
    h = p.hex()
    if r < 0.4:
        return h.upper().encode()
    if r < 0.6:
        return h.encode()
    return "".join(rng.choice([c, c.upper()]) for c in h).encode()


def eol(rng):
    return rng.choice([b"\n", b"\n", b"\n", b"\r\n"])


def junk_line(rng):
    """A line which is not a packet."""
    good = rng.randbytes(rng.randrange(1, 57)).hex()
    i = rng.randrange(len(good))
    r = rng.random()
    if r < 0.08:
        return b""
    if r < 0.18:  # digits enough, and something between, before or after them
        good = good[:108]
        gap = rng.choice([" ", "\t", "  ", " \t", "\x0b", "\x0c", ":", "::", "-", "_", ", ", "0x", "\0", "\0\0"])
        h = rng.random()
        if h < 0.3:
            x = good + gap
        elif h < 0.6:
            x = gap + good
        elif h < 0.8:
            i -= i % 2
            x = good[:i] + gap + good[i:]
        else:
            x = gap.join(good[j:j + 2] for j in range(0, min(len(good), 40), 2))
            if len(good) == 2:
                x += gap
        return x.encode()
    if r < 0.2:  # neither part of it is a packet
        n = i - 1 + i % 2
        return good[:max(n, 1)].encode() + b"\r" + good[:min(rng.choice([1, 3, 5, 55, 57, 111]), len(good) - 1)].encode()
    if r < 0.3:
        return good[:-1].encode()  # odd
    if r < 0.5:
        bad = rng.choice("ghxyzGXZ .,-+%\t\x0b\x01\x7f")
        return (good[:i] + bad + good[i + 1:]).encode("latin1")
    if r < 0.6:
        return (good[:i] + chr(rng.randrange(0x80, 0x100)) + good[i + 1:]).encode("latin1")
    if r < 0.66:
        return good[:i].encode() + b"\0" + good[i + 1:].encode()
    if r < 0.72:
        return ("0x" + good[2:]).encode() if len(good) > 2 else b"0x"
    n = rng.choice([57, 57, 58, 60, 64, 112, 113, 120, 255, 256, 257, 300, 511, 512, 513, 900, 2000])
    x = rng.randbytes(n).hex()
    if rng.random() < 0.3:
        x = x[:-1]
    return x.encode()


def padded(p):
    return p.ljust(PACKET, b"\0")


def pieces(rng, data):
    """Split as TCP might."""
    r = rng.random()
    if r < 0.25:
        return [data]
    if r < 0.4 and len(data) < 400:
        return [data[i:i + 1] for i in range(len(data))]
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.choice([1, 2, 4, 9])))
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)]) if a < b]


class Sync:
    """Markers, which tell that everything before them was dealt with."""

    def __init__(self, d, rng):
        self.d, self.rng, self.n = d, rng, 0

    def mark(self):
        self.n += 1
        return b"\xfe\xed" + self.n.to_bytes(4, "big") + b"\xfa\xce"

    def up(self, c, alone=True):
        """A line of c reached the bus; its marker."""
        m = self.mark()
        c.write(m.hex().encode() + b"\n")
        self.d.until(
            lambda: padded(m) in self.d.seen[-400:] or not c.open,
            "a line a client sent does not reach the bus",
        )
        return m

    def served(self, c):
        """c is served from now on."""
        self.up(c)
        c.first = len(self.d.sent)

    def reached(self, c):
        """c gets what the bus sends from now on."""
        before = c.data.count(b"\n")
        tries = [0]

        def yet():
            if c.data.count(b"\n") > before or not c.open:
                return True
            if tries[0] < 100 and self.d.queued() == 0:
                tries[0] += 1
                self.d.send(self.mark())
                time.sleep(0.0005 * tries[0])
            return False

        self.d.until(yet, "no packet of the bus reaches a new client")
        self.down([c])
        c.first = len(self.d.sent)

    def down(self, clients):
        """A packet of the bus reached these clients."""
        m = self.mark()
        self.d.send(m)
        text = m.hex().encode() + b"\n"
        self.d.until(
            lambda: all(text in bytes(c.data[-4000:]).lower() or not c.open for c in clients),
            "a packet of the bus does not reach a client",
        )


def judge_client(ctx, d, c, upto=None, whole=True):
    """What c received: a run of the packets sent, ending with the last one when
    it was served till then, starting not later than when it was first served."""
    sent = d.sent if upto is None else d.sent[:upto]
    data = bytes(c.data)
    ctx.expect(
        not whole or data.endswith(b"\n") or not data,
        "a client is left with the incomplete line %r" % data[-150:],
    )
    got = data.split(b"\n")[:-1]
    texts = [x[:PACKET].hex().encode() for x in sent]

    def like(line, text, p):
        line = line.lower().rstrip(b"\r")
        # what is beyond a packet's size is of no concern
        return line == text or (len(p) > PACKET and line.startswith(text))

    start = len(sent) - len(got)
    if not whole:
        # it left: any stretch which starts early enough
        start = c.first
        ok = False
        for s in range(c.first, -1, -1):
            if len(got) + s <= len(d.sent) and all(
                like(g, d.sent[s + i][:PACKET].hex().encode(), d.sent[s + i]) for i, g in enumerate(got)
            ):
                ok = True
                break
        ctx.expect(ok or not got, "a client which left received %r" % got[:20])
        return len(got)
    ctx.expect(
        0 <= start <= c.first or (not got and c.first >= len(sent)),
        "a client served since packet %d received %d lines of %d packets: %r"
        % (c.first, len(got), len(sent), got[-12:]),
    )
    for i, g in enumerate(got):
        ctx.expect(
            like(g, texts[start + i], sent[start + i]),
            "a client received line %d %r, packet %d was %r"
            % (i, g, start + i, texts[start + i]),
        )
    ctx.count("lines compared", len(got))
    return len(got)


# --------------------------------------------------------------------------- #
def D01(ctx):
    """Memory safety."""
    ctx.limit(700, 3400)
    ctx.rule = (
        "the daemon built with AddressSanitizer and UndefinedBehaviorSanitizer, with "
        "MemorySanitizer, and (thorough) under valgrind, on an emulated device and loopback "
        "TCP: packets of every size, lines of every size around every buffer, random bytes, "
        "line storms, more clients than fit, closes at any point; a report or a crash is a "
        "violation; non-trivial: distinct (build, hostile action)"
    )
    builds = ["asan", "msan"] + (["valgrind"] if ctx.thorough else [])
    with Workshop() as shop:
        for b in builds:
            n = {"asan": ctx.scale(14, 250), "msan": ctx.scale(8, 120), "valgrind": 12}[b]
            for i, rng in ctx.cases(b, n):
                guarded(ctx, shop, b, hostile, rng)
            for i, rng in ctx.cases(b + " crowd", {"valgrind": 1}.get(b, ctx.scale(1, 8))):
                guarded(ctx, shop, b, crowd, rng)
        # every line length around every limit, in one stream
        for b in builds[: ctx.scale(1, 3)]:
            for n0 in ctx.sweep(b + " lengths", range(0, 1200, ctx.scale(400, 100))):
                guarded(ctx, shop, b, lengths, range(n0, n0 + ctx.scale(400, 100)))
        for b in builds[: ctx.scale(1, 3)]:
            for _ in ctx.sweep(b + " packet sizes", [0]):
                guarded(ctx, shop, b, sizes, list(range(1, 130)) + [255, 256, 257, 512, 513, 1024, 2048])
    ctx.floor(events__daemon=20, events__hostile=100)


def guarded(ctx, shop, build, what, arg):
    """Run it; what is not a report or a crash says nothing about memory."""
    d = None
    try:
        d = shop.start(ctx, build, lenient=True)
        what(ctx, arg, d, build)
        d.check("at the end")
    except CutShort as e:
        ctx.event("cut short", str(e))
    finally:
        if d:
            d.kill()
    if d:
        d.reports("at the end")
    ctx.expect(True, "no report")
    ctx.count("runs without a report")


def lengths(ctx, ns, d, build):
    c = d.connect()
    y = Sync(d, None)
    for n in ns:
        x = (HEX * 80)[:n].encode()
        c.write(x + b"\n")
        c.write(x[: n - 1] + b"g\n" if n else b"\n")
        if n % 16 == 0:
            y.up(c)
        ctx.see("length", build, n)
    y.up(c)


def sizes(ctx, ns, d, build):
    cs = [d.connect() for _ in range(3)]
    y = Sync(d, None)
    for c in cs:
        y.served(c)
    for n in ns:
        d.send(bytes([n & 0xFF] * n))
        y.down(cs)
        ctx.see("packet size", build, n)


def hostile(ctx, rng, d, build):
    y = Sync(d, rng)
    watch = d.connect()
    y.served(watch)
    cs = []
    for _ in range(rng.choice([10, 25])):
        act = rng.choice(
            ["join", "join", "line", "line", "junk", "junk", "bytes", "flood", "storm",
             "packet", "packet", "oversize", "nothing", "close", "reset", "half", "together"]
        )
        d.weather(rng)
        ctx.event("hostile", act)
        ctx.see("action", build, act)
        open_ = [c for c in cs if c.open]
        c = rng.choice(open_) if open_ else None
        if act == "join" or c is None:
            if len(open_) < 12:
                cs.append(d.connect())
        elif act == "line":
            for x in pieces(rng, spell(rng, packet(rng)) + eol(rng)):
                c.write(x)
                d.pump()
        elif act == "junk":
            c.write(junk_line(rng) + rng.choice([b"\n", b"\r\n", b""]))
        elif act == "bytes":
            c.write(rng.randbytes(rng.choice([1, 100, 511, 512, 513, 5000])))
        elif act == "flood":
            c.write(rng.choice([b"0", b"f", b"\0", b"\xff"]) * rng.choice([511, 512, 1024, 40000]))
        elif act == "storm":
            c.write(b"\n" * 300 + b"a\n" * 300 + b"00\n" * 30)
        elif act == "packet":
            d.send(packet(rng))
        elif act == "oversize":
            d.send(rng.randbytes(rng.choice([57, 64, 64, 65, 113, 512, 1000])))
        elif act == "nothing":
            d.send(b"")
        elif act == "together":
            for _ in range(5):
                d.send(packet(rng))
                c.write(spell(rng, packet(rng)) + b"\n" + junk_line(rng)[:rng.randrange(1, 40)])
                watch.write(spell(rng, packet(rng)) + b"\n")
        else:
            c.close(act)
        d.pump()
        if rng.random() < 0.25:
            y.up(watch)
            y.down([watch])
    y.up(watch)
    y.down([watch])


def crowd(ctx, rng, d, build):
    """More clients than it serves."""
    y = Sync(d, rng)
    watch = d.connect()
    y.served(watch)
    cs = []
    for i in range(rng.choice([70, 90])):
        cs.append(d.connect())
        if rng.random() < 0.2:
            y.up(watch)
    y.up(watch)
    for c in rng.sample(cs, 12):
        c.close(rng.choice(["close", "reset"]))
    for i in range(6):
        d.send(packet(rng))
        c = d.connect()
        c.write(b"01" * 60 + b"\n")
    y.up(watch)
    y.down([watch])
    ctx.event("hostile", "crowd")
    ctx.see("action", build, "crowd", len(cs))


# --------------------------------------------------------------------------- #
def D02(ctx):
    """From the bus to every client."""
    ctx.limit(500, 3400)
    ctx.rule = (
        "the daemon on an emulated device: packets of every size and content, singly and in "
        "bursts, with clients joining, leaving and sending at any point; each client's stream "
        "is parsed and must be the run of packets sent while it was served; non-trivial: "
        "distinct (clients, burst) histories"
    )
    with Workshop() as shop:
        for i, rng in ctx.cases("history", ctx.scale(40, 900)):
            d = shop.start(ctx, long_option=rng.random() < 0.5)
            ctx.expect(d.asked == 5555, "the daemon listens at port %s, not 5555" % d.asked)
            y = Sync(d, rng)
            limit = rng.choice([1, 3, 8, 20, 64])
            gone, history = [], []
            c = d.connect()
            y.reached(c)
            for _ in range(rng.choice([10, 40])):
                d.weather(rng)
                r = rng.random()
                live = [c for c in d.clients if c.open]
                if r < 0.3 and len(live) < limit or not live:
                    for _ in range(rng.choice([1, 1, 5])):
                        if len([c for c in d.clients if c.open]) < limit:
                            def serve(c, meet=rng.random() < 0.3):
                                if meet:
                                    d.send(packet(rng))  # while it is being accepted
                                y.reached(c)

                            join(d, serve)
                            history.append("join")
                elif r < 0.4:
                    c = rng.choice(live)
                    if rng.random() < 0.5:
                        y.down(live)
                        c.upto = len(d.sent)
                    c.close(rng.choice(["close", "reset"]))
                    gone.append(c)
                    history.append("leave")
                    # the place of one who left is free once this is through
                    live = [c for c in d.clients if c.open]
                    for _ in range(2):
                        y.down(live)
                elif r < 0.85:
                    for _ in range(rng.choice([1, 1, 3, 30])):
                        d.send(packet(rng))
                        history.append("packet")
                    if rng.random() < 0.5:
                        y.down(live)
                else:
                    c = rng.choice(live)
                    for _ in range(3):
                        d.send(packet(rng))
                        c.write(spell(rng, packet(rng)) + b"\n" + junk_line(rng) + b"\n")
                    history.append("cross")
            live = [c for c in d.clients if c.open]
            y.down(live)
            for c in d.clients:
                if c in gone:
                    judge_client(ctx, d, c, whole=False)
                else:
                    ctx.expect(c.open, "a client was disconnected")
                    judge_client(ctx, d, c)
            ctx.event("history", len(d.sent), len(d.clients))
            ctx.see("history", tuple(history))
            d.end()
        for clients in ctx.sweep("every size and octet", [2, PLACES]):
            d = shop.start(ctx)
            y = Sync(d, None)
            cs = [d.connect() for _ in range(clients)]
            for c in cs:
                y.reached(c)
            for n in range(1, PACKET + 1):
                d.send(bytes((n * 7 + j) & 0xFF for j in range(n)))
            y.down(cs)
            for v in range(256):
                d.send(bytes([v] * (1 + v % PACKET)))
                if v % 64 == 63:
                    y.down(cs)
            for c in cs:
                judge_client(ctx, d, c)
            d.end()
        for i, rng in ctx.cases("aged", ctx.scale(1, 4)):
            d = shop.start(ctx)
            y = Sync(d, rng)
            cs = [d.connect() for _ in range(2)]
            for c in cs:
                y.reached(c)
            few = [packet(rng) for _ in range(40)]
            for n in range(age.MANY // 140):
                for _ in range(140):
                    d.send(rng.choice(few))
                y.down(cs)
            for c in cs:
                ctx.expect(c.open, "a client was disconnected")
                judge_client(ctx, d, c)
            ctx.count("packets of a long service", len(d.sent))
            d.end()
        for i, rng in ctx.cases("slow", ctx.scale(4, 60)):
            slow(ctx, rng, shop)
        for i, rng in ctx.cases("torn", ctx.scale(10, 200)):
            torn(ctx, rng, shop)
        for i, rng in ctx.cases("patient", 1):
            patient(ctx, rng, shop)
    ctx.floor(**{"packets of a long service": age.MANY, "events/torn": 5, "events/patient": 1})
    ctx.floor(**{"events/history": 30, "lines compared": 3000, "events/bus sends": 1000})


def slow(ctx, rng, shop):
    """One does not read for a while, and then what there is."""
    d = shop.start(ctx, sndbuf=4608)
    y = Sync(d, rng)
    cs = steady(d, y, 1)
    late = []
    for _ in range(3):
        c = d.connect(rcvbuf=rng.choice([2304, 2304, 16384]), reads=False)
        y.served(c)
        late.append(c)
        for _ in range(rng.choice([1, 2, 4])):
            for _ in range(rng.choice([3, 60, 150, 300])):
                d.send(packet(rng))
                if rng.random() < 0.3:
                    y.down(cs)
            y.down(cs)
            for x in late:
                x.reads = True
                seen = -1
                while x.open and seen < x.got:
                    seen = x.got
                    end = time.monotonic() + 0.05
                    while time.monotonic() < end:
                        x.pump()
                        time.sleep(0.002)
                x.reads = rng.random() < 0.2
    for c in late:
        c.reads = True
    y.down(cs + late)
    for c in cs:
        ctx.expect(c.open, "a client which reads all was disconnected")
        judge_client(ctx, d, c)
    for c in late:
        # either it has all, or it has been let go and has all until then
        judge_client(ctx, d, c, whole=c.open)
        ctx.count("slow ones " + ("kept" if c.open else "let go"))
    ctx.event("slow", len(d.sent), [c.open for c in late])
    ctx.see("slow", len(d.sent), tuple(c.data.count(b"\n") for c in late))
    d.end()


def torn(ctx, rng, shop):
    """The network takes a part only of what is sent to a client: it gets the rest
    or nothing more, never something else."""
    d = shop.start(ctx, "faulty")
    y = Sync(d, rng)
    cs = [d.connect() for _ in range(rng.choice([2, 3, 6]))]
    for c in cs:
        y.reached(c)
    steps = 0
    for _ in range(rng.choice([5, 20])):
        d.weather(rng)
        met = d.failed()
        if rng.random() < 0.3:
            d.cut(rng.choice([1, 2, 3, rng.randrange(1, 113), 112]))
        for _ in range(rng.choice([1, 1, 4])):
            d.send(packet(rng))
        live = [c for c in cs if c.open]
        if not live:
            break
        y.down(live)
        steps += 1
        left = [c for c in live if not c.open]
        ctx.expect(
            len(left) <= d.failed() - met, "%d clients are disconnected for %d cuts" % (len(left), d.failed() - met)
        )
    d.cut(0)
    live = [c for c in cs if c.open]
    if live:
        y.down(live)
    for c in cs:
        if c.open:
            judge_client(ctx, d, c)
            continue
        ctx.count("clients let go when cut short")
        # its last line may miss its end; what it has is of one run
        whole, _, rest = bytes(c.data).rpartition(b"\n")
        c.data = whole + b"\n" if whole else b""
        n = judge_client(ctx, d, c, whole=False)
        run = [x[:PACKET].hex().encode() + b"\n" for x in d.sent]
        ctx.expect(
            not rest or any(
                run[s + n].startswith(rest.lower())
                and b"".join(run[s:s + n]) == bytes(c.data).lower()
                for s in range(len(run) - n)
            ),
            "a client is let go after %r" % rest,
        )
    ctx.event("torn", d.failed(), steps)
    ctx.see("torn", d.failed(), steps, len(cs))
    d.end()


def patient(ctx, rng, shop):
    """Clients which say nothing for long, or nothing more of a line they began,
    while others talk and the clock of the machine is set."""
    d = shop.start(ctx, "faulty")
    y = Sync(d, rng)
    talks, silent, quiet = d.connect(), d.connect(), d.connect()
    begun = [d.connect() for _ in range(6)]
    for c in [silent] + d.clients:
        y.reached(c)
    y.served(quiet)
    for c in begun[1:]:
        y.served(c)
    lines = []
    for n, c in enumerate(begun):
        p = b"\xb0" + bytes([n]) + rng.randbytes(rng.choice([3, 50]))
        x = spell(rng, p) + b"\n"
        if n == 3:
            x = b"q" + x
        cut = rng.choice([1, 2, 5, len(x) - 1])
        c.write(x[:cut])
        lines.append((c, p, x[cut:], n != 3))
    end = time.monotonic() + ctx.scale(22, 130)
    for off in (0, 2, 60, 3600, 30000000, -3600):
        d.clock(off)
        for _ in range(3):
            d.send(packet(rng))
            y.up(talks)
            time.sleep(0.01)
        y.down(d.clients)
    while time.monotonic() < end:
        d.send(packet(rng))
        y.up(talks)
        time.sleep(0.7)
        d.pump()
    y.down(d.clients)
    before = len(d.seen)
    for n, (c, _, x, _) in enumerate(lines):
        d.clock(0 if n < len(lines) // 2 else 86400)
        c.write(x)
        y.up(c)
    for c in (silent, quiet):
        y.up(c)
    got = [x for x in d.seen[before:] if x[:1] == b"\xb0"]
    want = [padded(p) for _, p, _, good in lines if good]
    ctx.expect(
        got == want,
        "lines begun long before their end reach the bus as %r, not %r" % ([x.hex() for x in got], [x.hex() for x in want]),
    )
    y.down(d.clients)
    for c in d.clients:
        ctx.expect(c.open, "a client which said nothing for long was disconnected")
        judge_client(ctx, d, c)
    ctx.event("patient", len(d.sent))
    ctx.see("patient", len(d.sent))
    d.end()


# --------------------------------------------------------------------------- #
def D03(ctx):
    """From the clients to the bus."""
    ctx.limit(500, 3400)
    ctx.rule = (
        "several clients writing packets in any spelling, with malformed lines in between, "
        "split and joined at random and interleaved with each other at random, leaving in the "
        "middle of a line; the bus must get, per client and in order, exactly its packets, "
        "whole and zero padded; non-trivial: distinct (interleaving, split) schedules"
    )
    with Workshop() as shop:
        for i, rng in ctx.cases("schedule", ctx.scale(45, 1000)):
            schedule(ctx, rng, shop)
        for _ in ctx.sweep("every size and octet", [0]):
            d = shop.start(ctx)
            c = d.connect()
            want = [bytes((n * 5 + j) & 0xFF for j in range(n)) for n in range(1, PACKET + 1)]
            want += [bytes([v, 255 - v]) for v in range(256)]
            for p in want:
                c.write(p.hex().encode() + b"\n")
            m = Sync(d, None).up(c)
            ctx.expect(
                d.seen == [padded(p) for p in want + [m]],
                "the bus got %d packets, the first which differs is %r"
                % (len(d.seen), next(((a, b) for a, b in zip(d.seen, map(padded, want + [m])) if a != b), None)),
            )
            d.end()
        for n in ctx.sweep("every malformed length", range(PACKET * 2 + 1, 700, ctx.scale(7, 1))):
            if n % 70 == PACKET * 2 + 1 - 70 or not ctx.only and n == PACKET * 2 + 1 or ctx.only:
                d = shop.start(ctx)
                c = d.connect()
                y = Sync(d, None)
            c.write((HEX * 50)[:n].encode() + b"\n")
            before = list(d.seen)
            m = y.up(c)
            ctx.expect(
                d.seen[len(before):] == [padded(m)],
                "a line of %d digits reaches the bus as %r" % (n, [x.hex() for x in d.seen[len(before):-1]]),
            )
            ctx.event("malformed", n)
        for i, rng in ctx.cases("many", ctx.scale(3, 40)):
            many(ctx, rng, shop)
        for i, rng in ctx.cases("full", ctx.scale(6, 60)):
            full(ctx, rng, shop)
        for i, rng in ctx.cases("nonsense", ctx.scale(2, 20)):
            nonsense(ctx, rng, shop)
        for i, rng in ctx.cases("patient", 1):
            patient(ctx, rng, shop)
        for i, rng in ctx.cases("aged", ctx.scale(1, 4)):
            d = shop.start(ctx)
            y = Sync(d, rng)
            c = d.connect()
            few = [packet(rng) for _ in range(40)]
            want = []
            for n in range(age.MANY // 140):
                xs = [rng.choice(few) for _ in range(140)]
                c.write(b"".join(x.hex().encode() + b"\n" for x in xs))
                want += xs + [y.up(c)]
            want = [padded(p) for p in want]
            bad = next((j for j, (a, b) in enumerate(zip(d.seen, want)) if a != b), None)
            ctx.expect(
                d.seen == want,
                "of %d packets sent one after the other the bus got %d, number %s differs"
                % (len(want), len(d.seen), bad),
            )
            ctx.count("packets of a long service", len(want))
            d.end()
    ctx.floor(**{"packets of a long service": age.MANY, "events/many": 3, "events/full": 6, "events/nonsense": 2, "events/patient": 1})
    ctx.floor(**{"packets compared": 1000, "events/schedule": 30, "malformed lines": 300})


def schedule(ctx, rng, shop):
    d = shop.start(ctx, long_option=rng.random() < 0.5)
    n = rng.choice([1, 1, 2, 3, 6])
    y = Sync(d, rng)
    streams, order = [], []
    finished = []

    def stream(tag):
        want, data = [], b""
        for _ in range(rng.choice([2, 5, 15])):
            if rng.random() < 0.35:
                j = junk_line(rng)
                data += j + eol(rng)
                ctx.count("malformed lines")
                ctx.see("malformed", len(j))
            else:
                p = packet(rng, tag)
                want.append(p)
                data += spell(rng, p) + eol(rng)
        maybe = None
        end = rng.choice(["stay", "stay", "close", "reset", "half"])
        if end != "stay" and rng.random() < 0.7:
            p = packet(rng, tag)
            x = spell(rng, p)
            x = x[: rng.choice([len(x), rng.randrange(1, len(x) + 1)])]
            data += x
            if len(x) % 2 == 0:
                maybe = bytes.fromhex(x.decode())
        s = {"c": d.connect(), "tag": tag, "want": want, "maybe": maybe, "end": end,
             "todo": pieces(rng, data), "lost": end == "reset"}
        streams.append(s)
        return s

    for tag in range(n):
        stream(tag)
    tag = n
    while True:
        busy = [s for s in streams if s["todo"]]
        if not busy:
            break
        d.weather(rng)
        s = rng.choice(busy)
        s["c"].write(s["todo"].pop(0))
        order.append(s["tag"])
        r = rng.random()
        if r < 0.25:
            time.sleep(rng.choice([0.0002, 0.001, 0.003]))  # what was written is read
        elif r < 0.3:
            d.send(packet(rng))
        d.pump()
        if not s["todo"] and s["end"] != "stay":
            s["c"].flush()
            if s["end"] == "reset":
                # a reset throws away what is not read yet; let it be read
                d.thaw()
                time.sleep(0.01)
            s["c"].close(s["end"])
            order.append((s["tag"], s["end"]))
            if tag < n + 4:
                stream(tag)  # another client, likely with the same descriptor
                tag += 1
    for s in streams:
        if s["end"] == "stay":
            y.up(s["c"])
    last = d.connect()
    y.up(last)
    time.sleep(0.002)
    y.up(last)
    got = [x for x in d.seen if x[:2] != b"\xfe\xed"]
    for x in got:
        ctx.expect(len(x) == PACKET, "the bus gets %d octets: %s" % (len(x), x.hex()))
    for s in streams:
        mine = [x for x in got if x[0] == s["tag"]]
        want = [padded(p) for p in s["want"]]
        allowed = [want]
        if s["maybe"] is not None:
            allowed.append(want + [padded(s["maybe"])])
        ok = mine in allowed or (s["lost"] and mine == (want + [padded(s["maybe"] or b"")])[: len(mine)])
        ctx.expect(
            ok,
            "client %d (%s) sent %s, the bus got %s"
            % (s["tag"], s["end"], [p.hex() for p in s["want"]], [x.hex() for x in mine]),
        )
        ctx.count("packets compared", len(mine))
    tags = {s["tag"] for s in streams}
    ctx.expect(
        all(x[0] in tags for x in got),
        "the bus got a packet nobody sent: %s" % [x.hex() for x in got if x[0] not in tags],
    )
    ctx.event("schedule", len(streams), len(got))
    ctx.see("schedule", tuple(order))
    d.end()


def many(ctx, rng, shop):
    """As many clients as are served, all in the middle of a line at once."""
    d = shop.start(ctx)
    y = Sync(d, rng)
    cs = [d.connect() for _ in range(rng.choice([40, PLACES - 1, PLACES]))]
    for c in cs:
        y.served(c)
    for _ in range(3):
        before, lines = len(d.seen), []
        for n, c in enumerate(cs):
            p = packet(rng, n)
            x = spell(rng, p)
            good = rng.random() < 0.8
            if not good:
                x = x[:-1] + b"g"
            lines.append([c, n, p, good, pieces(rng, x + eol(rng)) if len(x) > 40 else [x[:1], x[1:] + b"\n"]])
        while lines:
            for x in rng.sample(lines, len(lines)):
                x[0].write(x[4].pop(0))
                d.pump()
                if not x[4]:
                    y.up(x[0])
                    got = [s for s in d.seen[before:] if s[:2] != b"\xfe\xed" and s[0] == x[1]]
                    want = [padded(x[2])] if x[3] else []
                    ctx.expect(
                        got == want,
                        "client %d of %d wrote %s, the bus got %s"
                        % (x[1], len(cs), x[2].hex() if x[3] else "no packet", [s.hex() for s in got]),
                    )
                    lines.remove(x)
                    ctx.count("packets compared")
        if rng.random() < 0.5:
            y.down(cs)
    ctx.event("many", len(cs), len(d.seen))
    ctx.see("many", len(cs), len(d.seen))
    d.end()


def full(ctx, rng, shop):
    """What waits of a client is exactly as much as some buffer holds, and no more comes."""
    d = shop.start(ctx)
    y = Sync(d, rng)
    c, other = d.connect(), d.connect()
    y.served(c)
    y.served(other)
    for size in [64, 112, 113, 128, 256, 511, 512, 513, 1024, 1536, 2048, 4096, 8192, 16384]:
        want, data = [], b""
        ends = rng.random() < 0.7
        tail = b"" if ends else b"d0" + b"5a" * rng.randrange(min(PACKET, size // 2))
        while len(data) < size - len(tail):
            room = size - len(tail) - len(data)
            n = min(PACKET, rng.randrange(1, PACKET + 1), max(1, (room - 1) // 2))
            p = b"\xd0" + rng.randbytes(n - 1)
            x = p.hex().encode() + b"\n"
            if len(x) > room:
                x = b"\n"
            else:
                want.append(padded(p))
            data += x
        data += tail
        if tail:
            want.append(padded(bytes.fromhex(tail.decode())))
        before = len(d.seen)
        d.freeze()
        c.write(data)
        time.sleep(0.001)
        d.thaw()
        y.up(other)
        y.down([c, other])
        if not ends:
            c.write(b"\n")
        y.up(c)
        got = [x for x in d.seen[before:] if x[0] == 0xD0]
        ctx.expect(
            got == want,
            "of %d octets written at once the bus got %s, not %s" % (size, [x.hex() for x in got], [x.hex() for x in want]),
        )
        ctx.count("packets compared", len(want))
        ctx.see("full", size, ends, len(want))
    ctx.event("full", len(d.seen))
    d.end()


def nonsense(ctx, rng, shop):
    """A client which says little but nonsense is still heard when it makes sense."""
    d = shop.start(ctx)
    y = Sync(d, rng)
    c = d.connect()
    y.served(c)
    few = [junk_line(rng) for _ in range(30)]
    for _ in range(ctx.scale(25, 200)):
        before = len(d.seen)
        n = rng.choice([1, 30, 300])
        c.write(b"".join(rng.choice(few) + b"\n" for _ in range(n)))
        m = y.up(c)
        ctx.expect(
            c.open and d.seen[before:] == [padded(m)],
            "after %d malformed lines the bus gets %s" % (n, [x.hex() for x in d.seen[before:]]),
        )
        ctx.count("malformed lines", n)
    y.down([c])
    ctx.event("nonsense", len(d.seen))
    ctx.see("nonsense", len(d.seen))
    d.end()


# --------------------------------------------------------------------------- #
def D04(ctx):
    """Clients which fail do not harm the others."""
    ctx.limit(600, 3400)
    ctx.rule = (
        "steady clients, which must lose nothing, while others close, reset, half close, "
        "flood, stop reading, and come in greater number than can be served; bounded "
        "progress is judged when the daemon is idle with unserved input; clients are lost to "
        "errors of the network, injected when they are accepted or read from; non-trivial: "
        "distinct fault sequences"
    )
    with Workshop() as shop:
        for i, rng in ctx.cases("faults", ctx.scale(28, 600)):
            faults(ctx, rng, shop)
        for i, rng in ctx.cases("crowd", ctx.scale(2, 30)):
            places(ctx, rng, shop)
        for i, rng in ctx.cases("stuck", ctx.scale(3, 40)):
            stuck(ctx, rng, shop)
        for i, rng in ctx.cases("turnover", ctx.scale(1, 8)):
            turnover(ctx, rng, shop)
    ctx.floor(**{"events/fault": 200, "clients which came and went": 1000, "events/crowd": 2, "events/stuck": 3, "lines compared": 1000})


def steady(d, y, n):
    cs = [d.connect() for _ in range(n)]
    for c in cs:
        y.served(c)
    return cs


PLACES = 64


def join(d, serve):
    """One more client. While all the places are taken, counting those which left but
    may not have been noticed yet, one which is turned away tries again for a while."""
    end = time.monotonic() + 20
    while True:
        c = d.connect()
        serve(c)
        held = [x for x in d.clients if x is not c and (x.open or x.left > time.monotonic() - 30)]
        if c.open or len(held) < PLACES or time.monotonic() > end:
            return c
        d.ctx.count("turned away by one who left")
        d.clients.remove(c)
        c.close()
        time.sleep(0.02)


def watch_steady(ctx, d, y, cs):
    """Their packets pass in both directions, and nothing else was lost."""
    for c in cs:
        y.up(c)
        ctx.expect(c.open, "a client which did nothing was disconnected")
    y.down(cs)
    for c in cs:
        ctx.expect(c.open, "a client which did nothing was disconnected")


NETWORK = "ECONNABORTED ENETDOWN EPROTO ENOPROTOOPT EHOSTDOWN ENONET EHOSTUNREACH EOPNOTSUPP ENETUNREACH".split()


def lost(ctx, rng, d, c):
    """A client is lost to the network, while it comes or later."""
    n = d.failed()
    if c is None:
        name = rng.choice(NETWORK)
        d.lose(accept=getattr(errno, name))
        c = d.connect()
        what = "comes"
    else:
        name = rng.choice("ECONNRESET ETIMEDOUT EHOSTUNREACH ENETUNREACH EPIPE".split())
        d.lose(client=getattr(errno, name))
        c.write(b"01")
        what = "is read from"
    ctx.event("lost", what, name)
    end = time.monotonic() + 5
    while d.alive() and d.failed() == n and time.monotonic() < end:
        d.thaw()
        d.pump()
        time.sleep(0.001)
    d.lose()
    # the one which is lost may be any one which waited or wrote; not a steady one
    ctx.count("clients lost" if d.failed() > n else "faults which were not met")


def faults(ctx, rng, shop):
    d = shop.start(ctx, rng.choice(["plain", "faulty"]))
    y = Sync(d, rng)
    cs = steady(d, y, rng.choice([1, 2, 4]))
    order = []
    for _ in range(rng.choice([8, 25])):
        act = rng.choice(
            ["open and close", "open and reset", "close", "reset", "half", "mid line", "flood",
             "binary", "unread reset", "mass leave", "join"]
            + ["lost at once", "lost"] * (d.build == "faulty")
        )
        order.append(act)
        d.weather(rng)
        ctx.event("fault", act)
        others = [c for c in d.clients if c.open and c not in cs]
        if act.startswith("open and"):
            c = d.connect()
            c.close(act[9:])
        elif act == "lost at once":
            lost(ctx, rng, d, None)
        elif act == "join" or not others:
            for _ in range(rng.choice([1, 4])):
                if len([c for c in d.clients if c.open]) < 40:
                    d.connect()
        elif act == "lost":
            lost(ctx, rng, d, rng.choice(others))
        elif act == "mass leave":
            for c in others:
                c.close(rng.choice(["close", "reset"]))
        elif act == "mid line":
            c = rng.choice(others)
            c.write(b"0113f")
            c.close("reset")
        elif act == "flood":
            rng.choice(others).write(b"5" * 30000)
        elif act == "binary":
            rng.choice(others).write(rng.randbytes(3000))
        elif act == "unread reset":
            c = rng.choice(others)
            c.reads = False
            for _ in range(5):
                d.send(packet(rng))
            c.close("reset")
        else:
            rng.choice(others).close(act)
        for _ in range(rng.choice([0, 1, 4])):
            d.send(packet(rng))
        d.pump()
        if rng.random() < 0.6:
            watch_steady(ctx, d, y, cs)
    watch_steady(ctx, d, y, cs)
    fresh = d.connect()
    y.served(fresh)
    watch_steady(ctx, d, y, cs + [fresh])
    for c in cs + [fresh]:
        judge_client(ctx, d, c)
    ctx.see("faults", tuple(order))
    d.end()


def places(ctx, rng, shop):
    """64 are served, one more does no harm, a place left is used again."""
    d = shop.start(ctx)
    y = Sync(d, rng)
    cs = steady(d, y, PLACES)
    watch_steady(ctx, d, y, cs)
    for rounds in range(3):
        over = []
        for _ in range(rng.choice([1, 4])):
            c = d.connect()
            c.write(b"fefe\n")
            over.append(c)
        d.send(packet(rng))
        watch_steady(ctx, d, y, cs)
        d.until(lambda: not [c for c in over if c.open], "a client which is not served is kept")
        for c in over:
            c.close(rng.choice(["close", "reset"]))
        watch_steady(ctx, d, y, cs)
        # a few, or all at once but for some
        for _ in range(rng.choice([1, 5] if rounds else [len(cs), len(cs) - 1])):
            gone = cs.pop(rng.randrange(len(cs)))
            gone.close(rng.choice(["close", "reset"]))
        watch_steady(ctx, d, y, cs)
        while len(cs) < PLACES:
            cs.append(join(d, y.served))
        watch_steady(ctx, d, y, cs)
    for c in cs:
        judge_client(ctx, d, c)
    ctx.event("crowd", len(d.clients))
    ctx.see("crowd", len(d.clients), len(d.sent))
    d.end()


def turnover(ctx, rng, shop):
    """More clients, one after the other, than a process has descriptors."""
    d = shop.start(ctx)
    y = Sync(d, rng)
    cs = steady(d, y, 2)
    for i in range(rng.choice([4200, 5000])):
        c = d.connect()
        if rng.random() < 0.3:
            c.write(spell(rng, packet(rng)) + b"\n")
        c.close("close" if i % 4 == 0 else "reset")
        d.clients.remove(c)
        ctx.count("clients which came and went")
        if i % 20 == 19:  # not more at a time than are served
            watch_steady(ctx, d, y, cs)
    cs += steady(d, y, 1)
    watch_steady(ctx, d, y, cs)
    for c in cs:
        judge_client(ctx, d, c)
    ctx.event("turnover", len(d.sent))
    ctx.see("turnover", len(d.sent), i)
    d.end()


def stuck(ctx, rng, shop):
    """One does not read what it is sent."""
    d = shop.start(ctx, sndbuf=4608)
    y = Sync(d, rng)
    before = steady(d, y, rng.choice([0, 1]))
    bad = d.connect(rcvbuf=2304, reads=False)
    y.served(bad)
    cs = before + steady(d, y, rng.choice([1, 2]))
    for i in range(rng.choice([300, 600])):
        d.send(packet(rng))
        y.down(cs)
        if i % 40 == 0:
            watch_steady(ctx, d, y, cs)
    fresh = d.connect()
    y.served(fresh)
    watch_steady(ctx, d, y, cs + [fresh])
    for c in cs + [fresh]:
        judge_client(ctx, d, c)
    ctx.event("stuck", len(d.sent))
    ctx.see("stuck", len(d.sent), len(before))
    d.end()


# --------------------------------------------------------------------------- #
PORTS = ["-p %d", "-p %06d", "--port=%d", "--port=0%d", "--port %d", "-p%d"]


def D05(ctx):
    """Its start and its end."""
    ctx.limit(500, 3400)
    ctx.rule = (
        "the daemon started with every spelling of its options, with a device which can not "
        "be opened, with a port which is taken, and again at once after it was terminated "
        "with clients connected; the device failing, when read and when written, at random "
        "points of sessions; its exit status, what it opens and binds, and what its clients "
        "see are compared with the statement; non-trivial: distinct (start or fault, history)"
    )
    with Workshop() as shop:
        missing = os.path.join(shop.dir, "no", "hidraw7")
        for i, rng in ctx.cases("start", ctx.scale(16, 150)):
            tail = rng.choice(["", "", "/bus", "x" * rng.choice([1, 12, 13, 50, 300])])
            spelling = rng.choice(["-d %s", "-d%s", "--dev-hidraw %s", "--dev-hidraw=%s", None])
            build = rng.choice(["plain", "asan"])
            port, options = 5555, []
            if i % 2:
                port = rng.choice([1, 502, 1023, 1024, 5556, 8765, 32767, 32768, 65535, rng.randrange(1, 1024), rng.randrange(1024, 65536)])
                options = (PORTS[i // 2 % len(PORTS)] % port).split(" ")
                if rng.random() < 0.2:  # the last one counts
                    options = ["-p", str(rng.randrange(1, 65536))] + options
            if rng.random() < 0.4:  # a host says nothing about where to serve
                options += (
                    rng.choice(["-s %s", "-s%s", "--host %s", "--host=%s"])
                    % rng.choice(["127.0.0.1", "localhost", "127.0.0.7", "172.20.35.81"])
                ).split(" ")
            first = rng.random() < 0.5
            if first and spelling and rng.random() < 0.6:
                options += ["-d", missing]  # again below
            d = shop.start(
                ctx, build, usual=spelling is None, long_option=spelling, name=tail or None,
                **{"before" if first else "after": options},
            )
            binds = [x for x in d.notes if x.startswith("bind")]
            ctx.expect(
                binds == ["bind %d 1" % port],
                "the daemon started with %r binds %r, not port %d of any address" % (options, binds, port),
            )
            y = Sync(d, rng)
            c = d.connect()
            y.served(c)
            y.down([c])
            judge_client(ctx, d, c)
            d.end()
            ctx.event("start", spelling, len(tail))
            ctx.see("start", spelling, tail, build, tuple(options), first)
        for a in ctx.sweep("help", [["-h"], ["--help"], ["-d", "knxmon:0", "-h"], ["--help", "--dev-hidraw=knxmon:0"]]):
            code, notes, out, err = run_once(ctx, shop, a)
            ctx.expect(code == 0, "%s ends with %s" % (a, code))
            ctx.expect("--dev-hidraw" in out + err, "%s prints %r" % (a, out + err))
            ctx.expect(
                not [x for x in notes if x.startswith(("open", "listen", "path"))],
                "%s does %r" % (a, notes),
            )
            ctx.event("help", out)
            ctx.see("help", tuple(a))
        for a in ctx.sweep("no device", [["-d", missing], ["-d", os.path.join(shop.dir, "none")], ["--dev-hidraw", "/dev/hidraw3"], [], ["--dev-hidraw=" + "/x" * 200]]):
            code, notes, out, err = run_once(ctx, shop, a)
            ctx.expect(
                code is not None and code > 0,
                "without its device %s the daemon %s" % (a[-1:], "goes on" if code is None else "ends with %s" % code),
            )
            ctx.expect(err.strip(), "%s ends without a word" % a)
            ctx.expect(
                not os.path.exists(os.path.join(shop.dir, "none")), "the daemon makes the device it did not find"
            )
            ctx.event("no device", code, err)
            ctx.see("no device", tuple(x.replace(shop.dir, "") for x in a))
        for n in ctx.sweep("device refused", "EACCES EPERM EROFS EBUSY ENODEV ENXIO EIO ENOMEM EMFILE ENFILE".split()):
            code, notes, out, err = run_once(
                ctx, shop, [["-d", "{bus}"], ["--dev-hidraw={bus}"], []][len(n) % 3], refused=getattr(errno, n)
            )
            ctx.expect(
                code is not None and code > 0 and err.strip(),
                "with a device which can not be opened (%s) the daemon %s %r"
                % (n, "goes on" if code is None else "ends with %s" % code, err),
            )
            ctx.event("device refused", n, code, err)
            ctx.see("device refused", n)
        for i, rng in ctx.cases("port taken", ctx.scale(3, 20)):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                s.listen(5)
                ours, theirs = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
                code, notes, out, err = run_once(
                    ctx, shop, ["-d", missing if rng.random() < 0.3 else "/dev/hidraw1"],
                    port=s.getsockname()[1],
                )
                ours.close()
                theirs.close()
            ctx.expect(
                code is not None and code > 0 and err.strip(),
                "with its port taken the daemon %s %r" % ("goes on" if code is None else "ends with %s" % code, err),
            )
            ctx.event("port taken", code, err)
        for i, rng in ctx.cases("restart", ctx.scale(4, 40)):
            restart(ctx, rng, shop)
        for i, rng in ctx.cases("device fails", ctx.scale(24, 400)):
            device_fails(ctx, rng, shop)
    ctx.floor(**{"events/start": 10, "events/help": 4, "events/no device": 4, "events/restart": 4, "events/device fails": 20})


def restart(ctx, rng, shop):
    """Terminated with clients connected, it can be started again at once."""
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
    try:
        d = shop.start(ctx, port=port)
    except Exception as e:
        if "in use" in str(e):
            ctx.count("port lost to another program")
            return
        raise
    y = Sync(d, rng)
    for rounds in range(3):
        cs = steady(d, y, rng.choice([1, 3]))
        for c in cs:
            c.write(spell(rng, packet(rng)) + b"\n")
        if rng.random() < 0.5:
            d.send(packet(rng))
            y.down(cs)
        if rng.random() < 0.5:
            cs[0].close()
            cs = cs[1:]
        os.kill(d.p.pid, rng.choice([signal.SIGTERM, signal.SIGKILL]))
        t0 = time.monotonic()
        while d.alive() or any(c.open for c in cs):
            for c in cs:
                c.pump()
            ctx.expect(
                time.monotonic() - t0 < 60,
                "told to terminate, the daemon %s" % ("goes on" if d.alive() else "leaves its clients connected"),
            )
            time.sleep(0.002)
        d.kill()
        d = shop.start(ctx, port=port)
        ctx.event("restart", d.port)
        ctx.expect(d.port == port, "harness: port %s, not %s" % (d.port, port))
        y = Sync(d, rng)
        ctx.see("restart", rounds, len(cs))
    y.served(d.connect())
    d.end()


def device_fails(ctx, rng, shop):
    told = rng.random() < 0.6
    d = shop.start(ctx, "faulty" if told else "plain")
    y = Sync(d, rng)
    cs = steady(d, y, rng.choice([1, 2, 5]))
    history = []
    for _ in range(rng.choice([0, 3, 12])):
        if rng.random() < 0.5:
            d.send(packet(rng))
        else:
            rng.choice(cs).write(spell(rng, packet(rng)) + b"\n" + junk_line(rng) + b"\n")
        history.append(1)
    watch_steady(ctx, d, y, cs)
    if told:
        name = rng.choice("EIO ENODEV ETIMEDOUT EPROTO EPIPE EBADF ENXIO EINVAL EOVERFLOW ESHUTDOWN ENOSPC".split())
        n, seen, c = len(d.seen), len(d.sent), rng.choice(cs)
        how = "%s, %s" % (rng.choice(["read", "written"]), name)
        ctx.event("fault", how)
        if how[0] == "r":
            d.fail(read=getattr(errno, name))
            d.send(packet(rng))
        else:
            d.fail(write=getattr(errno, name))
            c.write(spell(rng, packet(rng)) + b"\n")
        end = time.monotonic() + 60
        while d.alive() and not d.failed():
            d.pump()
            if len(d.seen) > n or time.monotonic() > end or how[0] == "r" and not d.queued():
                break
            time.sleep(0.002)
        if d.alive() and not d.failed():
            time.sleep(0.1)
        if d.alive() and not d.failed():
            ctx.count("faults which were not met")
            d.kill()
            return
    elif rng.random() < 0.5:
        how = "written"
        d.bus.shutdown(socket.SHUT_RD)  # from now on a write is refused
        rng.choice(cs).write(spell(rng, packet(rng)) + b"\n")
    else:
        how = "read"
        # closing it with a packet nobody read makes the next read fail
        rng.choice(cs).write(spell(rng, packet(rng)) + b"\n")
        end = time.monotonic() + 60
        while not select.select([d.bus], [], [], 0.2)[0]:
            for c in cs:
                c.pump()
            d.check("a line of a client is not written")
            if time.monotonic() > end:
                d.dead("a line of a client is not written")
        d.bus.close()
    t0 = time.monotonic()
    while d.alive():
        for c in cs:
            c.pump()
        state, used = d.cpu()
        if time.monotonic() - t0 > (20 if state in "SD" else 120):
            ctx.expect(False, "when its device fails (%s) the daemon goes on" % how)
        time.sleep(0.002)
    code = d.p.wait()
    ctx.expect(code > 0, "when its device fails (%s) the daemon ends with %s" % (how, code))
    ctx.expect(
        [x for x in d.stderr().split("\n") if x and not x.startswith("Server:")],
        "when its device fails (%s) the daemon ends without a word" % how,
    )
    end = time.monotonic() + 30
    while any(c.open for c in cs) and time.monotonic() < end:
        for c in cs:
            c.pump()
        time.sleep(0.002)
    ctx.expect(not any(c.open for c in cs), "the daemon ended, its clients stay connected")
    ctx.event("device fails", how, code, len(history))
    ctx.see("device fails", how, len(cs), len(d.sent), len(d.seen))
    d.kill()
