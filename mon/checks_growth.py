"""What long runs leave behind."""

import asyncio
import gc
import logging
import os
import time
import tracemalloc

import knx_stack as k

from . import kit, spec, vloop
from .checks_daemon import Sync, junk_line, packet, spell
from .checks_session import HERE, THERE, bus_messages
from .core import Inconclusive, Violation, call
from .daemon import PACKET, Workshop


# --------------------------------------------------------------------------- #
class Deaf(logging.Handler):
    """Everything is logged, and nothing of it kept."""

    def emit(self, record):
        record.getMessage()

    def __enter__(self):
        root = logging.getLogger()
        self.old = root.level, root.handlers[:]
        root.handlers[:] = [self]
        root.setLevel(logging.DEBUG)

    def __exit__(self, *exc):
        root = logging.getLogger()
        root.setLevel(self.old[0])
        root.handlers[:] = self.old[1]


def grown(ctx, name, step, n):
    """n steps are warming up, and after n more no more memory is held than that."""
    for _ in range(n):
        step()
    gc.collect()
    tracemalloc.start()
    try:
        for _ in range(n // 8):
            step()
        gc.collect()
        first, held = tracemalloc.take_snapshot(), [tracemalloc.get_traced_memory()[0]]
        while len(held) < 4:
            for _ in range(n):
                step()
            gc.collect()
            held.append(tracemalloc.get_traced_memory()[0])
            ctx.event("measured", name, n, held[-1] - held[-2])
            ctx.count("steps/" + name, n)
            if held[-1] - held[-2] <= 2000 + n:
                break  # it may only have been in the middle of something
        ctx.checks += 1
        if len(held) == 4:
            second = tracemalloc.take_snapshot()
            where = [
                str(x) for x in second.compare_to(first, "lineno")[:6] if "tracemalloc" not in str(x)
            ]
            raise Violation(
                "%s: rounds of %d of the same traffic each hold more memory than those before, %s octets: %s"
                % (name, n, held, "; ".join(where[:3]))
            )
    finally:
        tracemalloc.stop()


def S08(ctx):
    """Traffic leaves nothing behind."""
    ctx.limit(500, 3400)
    ctx.rule = (
        "stacks of all media, the tunnelling client and the USB client kept busy with random "
        "valid, foreign, repeated, refused, malformed and undecodable frames and with requests "
        "of their own, on a virtual clock; the memory traced after a long warm-up is compared "
        "with that after as many rounds more; non-trivial: distinct (part, configuration)"
    )
    with Deaf():
        for i, rng in ctx.cases("stack", ctx.scale(9, 60)):
            stack(ctx, rng, ("usb", "ip", "tp")[i % 3])
        for i, rng in ctx.cases("tunnel", ctx.scale(3, 20)):
            tunnel(ctx, rng)
        for i, rng in ctx.cases("usb client", ctx.scale(2, 12)):
            usb(ctx, rng)
    ctx.floor(events__measured=14)


def bus_frame(rng, t):
    """A cEMI frame, good or bad, of a bus with few devices: what is kept once of
    every address, or of every point, is not a leak."""
    x = bytearray(any_frame(rng, t))
    known = {a for s in t.assoc.values() for a in s} | {t.ia, t.ia ^ 1, t.ia ^ 0x100, 0x4242}
    at = 4 + x[1] if len(x) > 1 else 0
    for i in (at, at + 2):
        if len(x) >= i + 2 and int.from_bytes(x[i:i + 2], "big") not in known:
            x[i:i + 2] = rng.choice([0x1105, 0x1106, 0x2201]).to_bytes(2, "big")
    return bytes(x)


def any_frame(rng, t):
    r = rng.random()
    pool = sorted({x for a in t.assoc for x in t.assoc[a]})
    svc = rng.choice(["ind", "con"])
    if r < 0.5:
        d = spec.TYPES[rng.choice(sorted(set(t.types.values())) or ["DPT_Switch"])]
        return kit.group_frame(
            rng, t, svc, rng.choice(pool + [0x4242]), d, rng.choice(sorted(kit.OPS)), kit.random_word(rng, d)
        )
    if r < 0.7:
        return kit.property_frame(rng, t, svc, rng.choice(sorted(kit.PROPS)), mine=rng.random() < 0.7)
    if r < 0.8:  # other traffic
        return spec.cemi(
            kit.CODES[svc], rng.choice(pool + [t.ia]),
            bytes([rng.choice([0x80, 0x81, 0xC2, 0xC3, 0x00, 0x43])]) + rng.randbytes(rng.choice([0, 1, 3])),
            group=rng.random() < 0.5, src=rng.choice([0x1105, t.ia]),
        )
    x = bytearray(kit.property_frame(rng, t, svc, "write"))
    if r < 0.9:
        return bytes(x[: rng.randrange(len(x))])
    x[rng.randrange(len(x))] = rng.getrandbits(8)
    return bytes(x)


def a_request(rng, t):
    return bus_messages(rng, t, 1)[0][0]


def stack(ctx, rng, medium):
    t = kit.random_tables(rng, n_asaps=rng.choice([1, 3, 6]))
    s = kit.Stack(t, medium, names=rng.random() < 0.5)
    asaps = [a for a in t.assoc if a] + [4711]

    def step():
        if rng.random() < 0.4:
            r = rng.random()
            a = rng.choice(asaps)
            if r < 0.5:
                d = spec.TYPES[t.types.get(a, "DPT_Switch")]
                m = kit.write_req(kit.asap(a), kit.dpt(d.name, kit.random_word(rng, d)))
            elif r < 0.75:
                m = kit.read_req(kit.asap(a))
            elif r < 0.9:
                m = kit.prop_read_req(kit.asap(a), (rng.getrandbits(8), 1, 1, rng.getrandbits(12)))
            else:
                m = kit.prop_write_req(kit.asap(a), (rng.getrandbits(8), 1, 1, 1), rng.randbytes(3))
            repr(s.encode(m))
            if medium == "ip":
                for _ in range(6):
                    repr(s.encode(service(rng)))
            return
        f = bus_frame(rng, t)
        if medium == "ip":
            f = tunnelled(rng, s.state, f)
        elif medium == "usb":
            f = spec.usb(f) if rng.random() < 0.9 else rng.randbytes(rng.randrange(60))
        o = s.decode(f)
        call(repr, o.value)
        if medium == "ip" and o.ok:
            for m in o.value:
                if isinstance(m, k.knxnet_ip.tunneling.req.Msg):
                    s.encode(k.knxnet_ip.tunneling.ack.Msg(m.sequence_counter, m.status))

    grown(ctx, medium + " stack", step, ctx.scale(1600, 4000))
    ctx.see("part", medium, len(t.assoc), len(t.types), rng.random())


def service(rng):
    """A message of the KNXnet/IP services themselves."""
    net = k.knxnet_ip
    here, there = (("10.%d.%d.%d" % tuple(rng.randbytes(3)), rng.getrandbits(16)) for _ in "ab")
    return rng.choice(
        [net.core.connect.req.Msg(*here, *there), net.core.connectionstate.req.Msg(*here),
         net.core.disconnect.req.Msg(*here), net.core.search.req.Msg(*here),
         net.tunneling.ack.Msg(rng.getrandbits(8), rng.choice(list(net.ErrorCodes)))]
    )


def tunnelled(rng, state, f):
    """A datagram of a gateway."""
    r = rng.random()
    ch, q = state.communication_channel_id, state.sequence_counter_remote
    if r < 0.55:
        return spec.tunnel_req(ch, q, f)
    if r < 0.7:
        return spec.tunnel_req(ch, (q + rng.choice([-1, -1, 1, 100])) % 256, f)
    if r < 0.8:
        return spec.tunnel_ack(ch, rng.getrandbits(8), rng.choice([0, 0, 0x21]))
    if r < 0.85:
        return spec.connect_res(rng.getrandbits(8), rng.choice([0, 0, 0x24]))
    if r < 0.9:
        return spec.state_res(ch, rng.choice([0, 0x21]))
    if r < 0.95:
        x = bytearray(spec.tunnel_req(ch, q, f))
        x[rng.randrange(len(x))] = rng.getrandbits(8)
        return bytes(x[: rng.randrange(1, len(x) + 1)])
    return rng.randbytes(rng.randrange(1, 40))


class Sink:
    """A datagram transport which counts."""

    n = 0

    def sendto(self, data, addr=None):
        self.n += 1

    def close(self):
        pass

    def is_closing(self):
        return False

    def get_extra_info(self, *a):
        return None


def tunnel(ctx, rng):
    t = kit.random_tables(rng, n_asaps=3)
    n = ctx.scale(900, 3000)
    with vloop.using(vloop.Loop()) as loop:
        loop.sel.max_turns = 10 ** 9
        s = kit.Stack(t, "ip")
        msgs = [a_request(rng, t) for _ in range(40)] * (n // 8)
        c = k.client.knxnet_ip.Tunneling(HERE[0], HERE[1], THERE[0], THERE[1], s.state, msgs)
        wire = Sink()
        c.connection_made(wire)
        call(c.datagram_received, spec.connect_res(7, 0), THERE)
        loop.create_task(c.writer())

        def step():
            loop.run_until(loop.time() + 3)
            for _ in range(rng.choice([0, 1, 3])):
                call(c.datagram_received, tunnelled(rng, s.state, bus_frame(rng, t)), THERE)
            if rng.random() < 0.2:
                c.error_received(OSError(rng.choice([101, 111, 113]), "the network is %d" % rng.getrandbits(60)))

        grown(ctx, "tunnelling client", step, n)
        ctx.expect(wire.n >= 2 * n, "the client sent %d datagrams in %d rounds", wire.n, 2 * n)
        ctx.see("part", "tunnel", len(t.assoc), rng.random())


def usb(ctx, rng):
    t = kit.random_tables(rng, n_asaps=3)
    n = ctx.scale(500, 1500)
    with vloop.using(vloop.Loop(grace=0.0005)) as loop:
        loop.sel.max_turns = 10 ** 9
        s = kit.Stack(t, "usb")
        msgs = [a_request(rng, t) for _ in range(40)] * (n // 8)
        writers, got = [], [0]

        async def serve(reader, writer):
            writers.append(writer)
            while True:
                x = await reader.read(4096)
                if not x:
                    break
                got[0] += x.count(b"\n")

        server = loop.run_until_complete(asyncio.start_server(serve, "127.0.0.1", 0))
        c = k.client.usbhid.Client("127.0.0.1", server.sockets[0].getsockname()[1], s.state, msgs)

        def step():
            if writers:
                for _ in range(rng.choice([0, 1, 3])):
                    x = spec.usb(bus_frame(rng, t)).ljust(PACKET, b"\0").hex().encode()
                    if rng.random() < 0.2:
                        x = rng.choice([b"", b"zz", b"0113", rng.randbytes(20).replace(b"\n", b"")])
                    if rng.random() < 0.03:
                        x = b"01" * rng.choice([500, 33000, 40000])
                    writers[0].write(x + b"\n")
            loop.run_until(loop.time() + 3)

        grown(ctx, "USB client", step, n)
        ctx.expect(got[0] >= 2 * n - 20, "the client sent %d lines in %d rounds", got[0], 2 * n)
        ctx.see("part", "usb client", len(t.assoc), rng.random())
        server.close()
        del c


# --------------------------------------------------------------------------- #
def D07(ctx):
    """The daemon neither grows nor spins."""
    ctx.limit(500, 3400)
    ctx.rule = (
        "the daemon under long rounds of clients which come and go in every way, good and bad "
        "lines, and packets of the bus; its private memory and its descriptors after a round "
        "are compared with those after the next one; and with nothing to do, after every kind "
        "of fault, the processor time it takes, which is none; non-trivial: distinct rounds"
    )
    with Workshop() as shop:
        for i, rng in ctx.cases("growth", ctx.scale(2, 20)):
            growth(ctx, rng, shop)
        for i, rng in ctx.cases("rest", ctx.scale(10, 120)):
            rest(ctx, rng, shop)
    ctx.floor(**{"events/measured": 2, "events/at rest": 40})


def memory(d):
    """Octets of private memory, and the number of descriptors."""
    with open("/proc/%d/status" % d.p.pid) as f:
        x = dict(line.split(":", 1) for line in f)
    size = int(x["RssAnon"].split()[0])
    return 1024 * size, len(os.listdir("/proc/%d/fd" % d.p.pid))


def quiet(d, y, c):
    """Every client but c is gone, also for the daemon."""
    last = None
    for _ in range(200):
        y.up(c)
        y.down([c])
        now = len(os.listdir("/proc/%d/fd" % d.p.pid))
        if now == last:
            return
        last = now
        time.sleep(0.01)


def growth(ctx, rng, shop):
    d = shop.start(ctx)
    y = Sync(d, rng)
    c = d.connect()
    y.served(c)

    def forget():
        del d.seen[:], d.sent[:], c.data[:]

    def round_():
        for i in range(1500):
            e = d.connect()
            if rng.random() < 0.6:
                e.write(spell(rng, packet(rng)) + b"\n")
            if rng.random() < 0.3:
                e.write(junk_line(rng))
            e.close(rng.choice(["close", "close", "reset"]))
            d.clients.remove(e)
            ctx.count("clients which came and went")
            if i % 20 == 19:
                y.up(c)
                y.down([c])
                forget()
        for i in range(2400):
            c.write((spell(rng, packet(rng)) if rng.random() < 0.7 else junk_line(rng)) + b"\n")
            d.send(packet(rng))
            if i % 20 == 19:
                y.up(c)
                y.down([c])
                forget()
        for _ in range(3):  # more of them at a time than are served
            es = [d.connect() for _ in range(75)]
            d.until(lambda: sum(not e.open for e in es) >= 75 - 64, "a client too many is kept")
            for e in es:
                e.close(rng.choice(["close", "reset"]))
            d.clients[:] = [c]
            quiet(d, y, c)
            forget()
            ctx.count("crowds")
        quiet(d, y, c)

    round_()
    held = [memory(d)]
    while len(held) < 4:
        round_()
        held.append(memory(d))
        ctx.event("measured", held[-2], held[-1])
        ctx.see("round", rng.random())
        if all(x - y <= 40000 * (1 - i) for i, (x, y) in enumerate(zip(held[-1], held[-2]))):
            break
    ctx.expect(
        len(held) < 4,
        "with every 1500 clients, 2400 lines and 2400 packets the daemon's memory and descriptors grow: %s", held,
    )
    d.end()


def ran(d):
    """Nanoseconds on a processor."""
    try:
        with open("/proc/%d/schedstat" % d.p.pid) as f:
            return int(f.read().split()[0])
    except OSError:
        return d.cpu()[1] * 10 ** 7


def rest(ctx, rng, shop):
    d = shop.start(ctx, sndbuf=rng.choice([None, 4608]))
    y = Sync(d, rng)
    c = d.connect()
    y.served(c)
    for _ in range(rng.choice([4, 8])):
        act = rng.choice(["close", "reset", "half", "mid line", "stuck", "crowd", "flood", "lines"])
        e = d.connect(rcvbuf=2304 if act == "stuck" else None, reads=act != "stuck")
        if act == "crowd":
            for _ in range(70):
                d.connect()
        elif act == "stuck":
            for _ in range(80):
                d.send(packet(rng))
        elif act == "flood":
            e.write(b"5" * 20000)
        elif act == "lines":
            e.write(b"".join((spell(rng, packet(rng)) if rng.random() < 0.6 else junk_line(rng)) + b"\n" for _ in range(30)))
        elif act == "mid line":
            e.write(b"0113f")
        else:
            e.close(act)
        y.up(c)
        y.down([c])
        lowest = None
        for _ in range(25):  # one calm moment is enough
            a = ran(d)
            t0 = time.monotonic()
            while time.monotonic() - t0 < 0.04:
                d.pump()
                time.sleep(0.01)
            used = ran(d) - a
            lowest = used if lowest is None else min(lowest, used)
            if lowest < 2 * 10 ** 6:
                break
        d.check("a client: " + act)
        ctx.event("at rest", act, lowest)
        ctx.expect(
            lowest < 2 * 10 ** 6,
            "after a client (%s), with nothing to do, the daemon takes %d ns of processor time in every 40 ms" % (act, lowest),
        )
        if act == "crowd":
            for x in d.clients:
                if x is not c:
                    x.close()
            d.clients[:] = [c]
            y.up(c)
        ctx.see("act", act, rng.random())
        if not c.open:
            raise Inconclusive("the client which watches was lost")
    d.end()
