"""The parts together."""

import time

import knx_stack as k

from . import kit, spec, vloop
from .checks_session import Records, bus_messages
from .core import brief, call
from .daemon import PACKET, Workshop


# --------------------------------------------------------------------------- #
def D06(ctx):
    """Clients, daemon and bus together."""
    ctx.limit(500, 3400)
    ctx.rule = (
        "several of the real USB clients, each with its own configuration, through the real "
        "daemon on an emulated interface which confirms what it gets, answers reads and has "
        "other devices talking; what the interface gets is compared with what the clients "
        "were told to send, and what each client reports with what the reference says of "
        "every packet of the interface; non-trivial: distinct (clients, packets) runs"
    )
    with Workshop() as shop:
        for i, rng in ctx.cases("run", ctx.more(24, 400)):
            together(ctx, rng, shop)
    ctx.floor(**{"events/requests": 60, "events/reports": 150, "events/run": 20})


LAST = 0xFEFE  # every client listens to it


def together(ctx, rng, shop):
    d = shop.start(ctx, rng.choice(["plain", "plain", "asan"]))
    n = rng.choice([1, 2, 2, 3])
    with Records() as seen, vloop.using(vloop.Loop(grace=0.01)) as loop:
        loop.sel.max_turns = 10 ** 9
        bus = Interface(ctx, rng, d)
        loop.add_reader(d.bus.fileno(), bus.read)
        sides = []
        shared = kit.random_tables(rng, n_asaps=rng.choice([2, 4]))
        for i in range(n):
            t = shared if rng.random() < 0.6 else kit.random_tables(rng, n_asaps=3)
            # the same points under names and numbers of its own
            mine = spec.Tables(rng.randrange(1, 0x10000), max_size=255)
            for a, addrs in t.assoc.items():
                if a:
                    mine.associate(a + 100 * i, addrs)
                    if a in t.types:
                        mine.types[a + 100 * i] = t.types[a]
            side = Side(rng, mine, i)
            sides.append(side)
        bus.sides = sides
        stops = []
        real_stop = loop.stop
        loop.sel.grace = 20  # none is to end before all are connected
        for side in sides:
            side.client = k.client.usbhid.Client("127.0.0.1", d.port, side.stack.state, [m for m, _ in side.todo])
        loop.sel.grace = 0.01
        loop.stop = lambda: (stops.append(1), real_stop())
        started = time.monotonic()
        while len(stops) < n:
            ctx.expect(time.monotonic() - started < 120, "the clients do not end after their last message")
            d.check("clients are served")
            try:
                loop.run_forever()
            except vloop.Idle:
                pass
        loop.stop = real_stop
        wanted = sum(len(s.todo) for s in sides)

        def settle(cond, what):
            t0 = time.monotonic()
            while not cond():
                ctx.expect(time.monotonic() - t0 < 40, what)
                d.check(what)
                loop.run_until(loop.time() + 1)

        settle(lambda: len(bus.got) >= wanted, "the interface got %d packets of %d requests" % (len(bus.got), wanted))
        bus.send(spec.cemi(spec.IND, LAST, spec.tpdu_group(spec.WRITE, spec.TYPES["DPT_Switch"], 1), src=0x1177, ctrl1=0xBC))
        settle(
            lambda: all(any("asap %d (side %d)" % (9000 + s.i, s.i) in x for x in seen.lines) for s in sides),
            "the last packet of the bus is not reported by every client; they report %s" % brief(seen.lines[-8:], 1500),
        )
        for _ in range(3):
            loop.run_until(loop.time() + 1)
        loop.remove_reader(d.bus.fileno())
        # to the bus: every client's requests, whole, once, in its order
        for x in bus.got:
            ctx.expect(len(x) == PACKET, "the bus gets %d octets: %s" % (len(x), x.hex()))
        queues = [[spec.usb(f).ljust(PACKET, b"\0") for _, f in s.todo] for s in sides]
        ctx.expect(
            shuffle_of(bus.got, queues),
            "the clients were to send %s, the bus got %s" % ([[x.hex() for x in q] for q in queues], [x.hex() for x in bus.got]),
        )
        for s in sides:
            for m, _ in s.todo:
                ctx.event("requests", s.i, repr(m))
            want = []
            for f in bus.sent:
                o = s.twin.decode(spec.usb(f).ljust(PACKET, b"\0"))
                right = spec.decode_cemi(s.t, f)
                ctx.expect(o.ok and kit.same(right, [kit.abstract(m) for m in o.value]), "%s is decoded as %r" % (f.hex(), o))
                if any(m[0] == "group" for m in right):
                    shown = call(repr, o.value)
                    if shown.ok:
                        want.append(shown.value)
            mine = "side %d)" % s.i
            got = [x for x in seen.lines if mine in x and "read [" in x]
            ctx.expect(
                len(got) == len(want) and all(w in g for w, g in zip(want, got)),
                "client %d reports %r, the bus has said %r" % (s.i, got, want),
            )
            for x in got:
                ctx.event("reports", s.i, x)
        ctx.event("run", n, len(bus.sent))
        ctx.see("run", n, len(bus.sent), tuple(len(s.todo) for s in sides))
        for s in sides:
            w = getattr(s.client, "wsock", None)
            if w is not None:
                w.close()
    d.end()


def shuffle_of(got, queues):
    """Is it an interleaving of the queues?"""
    if len(got) != sum(map(len, queues)):
        return False
    states = {tuple(0 for _ in queues)}
    for x in got:
        states = {
            s[:i] + (s[i] + 1,) + s[i + 1:]
            for s in states
            for i, q in enumerate(queues)
            if s[i] < len(q) and q[s[i]] == x
        }
    return bool(states)


class Side:
    """A client's configuration and what it is to send."""

    def __init__(self, rng, t, i):
        self.t, self.i = t, i
        todo = bus_messages(rng, t, rng.choice([0, 1, 3, 6]))
        t.associate(9000 + i, [LAST])
        t.types[9000 + i] = "DPT_Switch"
        # what it says first nobody else says
        t.associate(9100 + i, [0xFD00 + i])
        m = kit.read_req(kit.asap(9100 + i))
        f = spec.cemi(spec.REQ, 0xFD00 + i, spec.tpdu_group(spec.READ, None, 0))
        self.todo = [(m, f)] + todo
        self.stack = kit.Stack(t, "usb", names=lambda a: "side %d" % i)
        self.twin = kit.Stack(t, "usb", names=lambda a: "side %d" % i)


class Interface:
    """The bus, seen from the daemon."""

    def __init__(self, ctx, rng, d):
        self.ctx, self.rng, self.d = ctx, rng, d
        self.got, self.sent, self.sides = [], [], []
        self.waiting = []  # till every client is served

    def send(self, f):
        if self.waiting is not None:
            self.waiting.append(f)
            if not {0xFD00 + s.i for s in self.sides} <= {int.from_bytes(x[17:19], "big") for x in self.got}:
                return
            held, self.waiting = self.waiting, None
            for f in held:
                self.send(f)
            return
        self.sent.append(f)
        self.d.send(spec.usb(f).ljust(self.rng.choice([PACKET, 64]), b"\0")[:64])

    def read(self):
        rng = self.rng
        while True:
            try:
                x = self.d.bus.recv(4096)
            except BlockingIOError:
                return
            self.d.check("a packet was sent to the bus")
            if not x:
                return
            self.got.append(x)
            self.ctx.event("bus got", x.hex())
            try:
                f = spec.parse_usb(x[: 3 + x[2]])[-1]
            except (spec.Bad, IndexError):
                continue  # judged at the end
            if f[:2] != bytes([spec.REQ, 0]):
                continue
            self.send(bytes([spec.CON, 0, f[2] & 0xFE | (rng.random() < 0.1)]) + f[3:])
            dst = int.from_bytes(f[6:8], "big")
            if f[3] & 0x80 and rng.random() < 0.7:  # somebody answers or follows
                for s in rng.sample(self.sides, len(self.sides)):
                    known = [s.t.types[a] for a in s.t.asaps_of(dst) if a in s.t.types]
                    if known:
                        t = spec.TYPES[rng.choice(known)]
                        self.send(
                            spec.cemi(
                                spec.IND, dst, spec.tpdu_group(rng.choice([spec.RESPONSE, spec.WRITE]), t, kit.random_word(rng, t)),
                                src=rng.randrange(1, 0x10000), ctrl1=0xBC,
                            )
                        )
                        break
            if rng.random() < 0.3:
                self.send(
                    spec.cemi(spec.IND, rng.randrange(1, 0x10000), spec.tpdu_group(spec.READ, None, 0), src=0x1188, ctrl1=0xBC)
                )
