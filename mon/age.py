"""Long service: the seventy thousandth message is served as the first was."""

import asyncio

import knx_stack as k

from . import kit, spec, vloop
from .core import brief, call

MANY = 70000  # more than fits in sixteen bits
NET = k.knxnet_ip


def received(ctx, make, medium="usb"):
    """make(rng, tables) -> a cEMI frame. One stack decodes few of them again and again."""
    for i, rng in ctx.cases("aged", ctx.scale(1, 6)):
        t = kit.random_tables(rng, n_asaps=4)
        s = kit.Stack(t, medium)
        ch = getattr(s.state, "communication_channel_id", 0)
        known = []
        for _ in range(24):
            f = make(rng, t)
            want = spec.decode_cemi(t, f)
            known.append((f, s.to_msg(spec.usb(f)), want, kit.same))
        q = getattr(s.state, "sequence_counter_remote", 0)
        for n in range(MANY):
            f, m, want, same = rng.choice(known)
            if s.medium == "ip":
                got = k.decode_msg(s.state, s.to_msg(spec.tunnel_req(ch, q, f)))
                k.encode_msg(s.state, NET.tunneling.ack.Msg(q, NET.ErrorCodes.E_NO_ERROR))
                q = (q + 1) % 256
                got = [kit.abstract(x) for x in got[1:]]
            else:
                got = [kit.abstract(x) for x in k.decode_msg(s.state, m)]
            if got != want and not same(want, got):
                ctx.expect(
                    False, "after %d frames, %s is delivered as %r, not %r" % (n, f.hex(), got, want)
                )
        ctx.checks += MANY
        ctx.count("frames of a long service", MANY)
        ctx.see("aged", s.medium, tuple(f for f, *_ in known))
    ctx.floor(**{"frames of a long service": MANY})


def requested(ctx, medium, make):
    """make(rng, tables) -> (message, cEMI frame). One stack sends few of them again
    and again, what is received in between included."""
    for i, rng in ctx.cases("aged", ctx.scale(1, 6)):
        t = kit.random_tables(rng, n_asaps=4)
        s = kit.Stack(t, medium)
        known = [make(rng, t) for _ in range(24)]
        heard = s.to_msg(spec.usb(kit.property_frame(rng, t, "con", "read")))
        ch = getattr(s.state, "communication_channel_id", 0)
        q = getattr(s.state, "sequence_counter_local", 0)
        for n in range(MANY):
            m, f = rng.choice(known)
            want = {"usb": spec.usb, "tp": bytes, "ip": lambda f: spec.tunnel_req(ch, q, f)}[medium](f)
            got = kit.to_bytes(k.encode_msg(s.state, m))
            if got != want:
                ctx.expect(
                    False, "after %d requests, %s is sent as %s, not %s" % (n, brief(m), got.hex(), want.hex())
                )
            if medium == "ip":
                k.decode_msg(s.state, s.to_msg(spec.tunnel_ack(ch, q, 0)))
                q = (q + 1) % 256
            elif medium == "usb" and n % 8 == 0:
                k.decode_msg(s.state, heard)
        ctx.checks += MANY
        ctx.count("requests of a long service", MANY)
        ctx.see("aged", tuple(f for _, f in known))
    ctx.floor(**{"requests of a long service": MANY})


def tunnelling_client(ctx, bus_messages, here, there):
    """One client, one session: it acknowledges and sends for ever."""
    for i, rng in ctx.cases("aged", ctx.scale(1, 6)):
        t = kit.random_tables(rng, n_asaps=3)
        sent = []

        class Wire:
            def sendto(self, data, addr=None):
                sent.append((bytes(data), addr))

            def close(self):
                pass

            def is_closing(self):
                return False

            def get_extra_info(self, *a):
                return None

        with vloop.using(vloop.Loop()) as loop:
            loop.sel.max_turns = 10 ** 9
            s = kit.Stack(t, "ip")
            todo = bus_messages(rng, t, 20) * 60
            c = k.client.knxnet_ip.Tunneling(here[0], here[1], there[0], there[1], s.state, [m for m, _ in todo])
            c.connection_made(Wire())
            ch = rng.randrange(256)
            c.datagram_received(spec.connect_res(ch, 0), there)
            del sent[:]
            loop.create_task(c.writer())
            q = local = 0
            f = spec.cemi(spec.IND, t.addresses()[0], b"\0\x81")
            ack = [spec.tunnel_ack(ch, x, 0) for x in range(256)]
            req = [spec.tunnel_req(ch, x, f) for x in range(256)]
            for n, (m, g) in enumerate(todo):
                loop.run_until(loop.time() + (0.5 if n == 0 else 3))
                want = [(spec.tunnel_req(ch, local, g), there)]
                ctx.expect(sent == want, "as message %d the client sends %s, not %s" % (n, sent, want))
                del sent[:]
                c.datagram_received(ack[local], there)
                local = (local + 1) % 256
                for _ in range(MANY // len(todo) + 1):
                    c.datagram_received(req[q], there)
                    if sent != [(ack[q], there)]:
                        ctx.expect(False, "request %d after %d messages is answered by %s" % (q, n, brief(sent)))
                    del sent[:]
                    q = (q + 1) % 256
                    ctx.checks += 1
            ctx.count("requests of a long session", MANY)
            ctx.see("aged", tuple(f for _, f in todo[:20]))
    ctx.floor(**{"requests of a long session": MANY})


def usb_client(ctx, bus_messages, Records):
    """One client, one connection: it reads and sends for ever."""
    for i, rng in ctx.cases("aged", ctx.scale(1, 6)):
        t = kit.random_tables(rng, n_asaps=3)
        with Records() as seen, vloop.using(vloop.Loop(grace=0.001)) as loop:
            loop.sel.max_turns = 10 ** 9
            s, twin = kit.Stack(t, "usb"), kit.Stack(t, "usb")
            todo = bus_messages(rng, t, 20) * 60
            lines, expected = [], []
            for a in t.addresses() * 3:
                report = spec.usb(spec.cemi(spec.IND, a, rng.choice([b"\0\0", b"\0\x81", b"\0\x41"]))).ljust(56, b"\0")
                o = twin.decode(report)
                shown = call(repr, o.value)
                if o.ok and o.value and shown.ok:
                    lines.append(report.hex().encode())
                    expected.append(shown.value)
            lines += [b"zz", b"", b"0113"]
            expected += [None] * 3
            writers, got = [], bytearray()

            async def serve(reader, writer):
                writers.append(writer)
                while True:
                    x = await reader.read(4096)
                    if not x:
                        break
                    got.extend(x)

            server = loop.run_until_complete(asyncio.start_server(serve, "127.0.0.1", 0))
            c = k.client.usbhid.Client("127.0.0.1", server.sockets[0].getsockname()[1], s.state, [m for m, _ in todo])
            loop.run_until(loop.time() + 1)
            want = b"".join(spec.usb(f).hex().upper().encode() + b"\n" for _, f in todo)
            lot = MANY // len(todo) + 1
            for n in range(len(todo)):
                del seen.lines[:]
                xs = [rng.randrange(len(lines)) for _ in range(lot)]
                writers[0].write(b"".join(lines[x] + b"\n" for x in xs))
                loop.run_until(loop.time() + 3)
                said = [x for x in seen.lines if "[" in x and "write" not in x.split("[")[0]]
                hope = [expected[x] for x in xs if expected[x]]
                said = [x for x in said if any(e in x for e in hope)]
                ctx.expect(
                    len(said) == len(hope) and all(e in x for e, x in zip(hope, said)),
                    "after %d lines the client reports %s, not %s" % (n * lot, brief(said), brief(hope)),
                )
            loop.run_until(loop.time() + 10)
            ctx.expect(
                bytes(got).upper() == want,
                "the client sends %d lines of %d, or others" % (got.count(b"\n"), len(todo)),
            )
            ctx.count("lines of a long session", lot * len(todo))
            ctx.see("aged", tuple(lines))
            server.close()
    ctx.floor(**{"lines of a long session": MANY})


def tables(ctx):
    """One pair of tables, changed again and again."""
    for i, rng in ctx.cases("aged", ctx.scale(1, 6)):
        ia = rng.randrange(1, 0x10000)
        at = k.AddressTable(k.Address(ia), [], 5)
        table = k.AssociationTable(at)
        pool = rng.sample(range(1, 0x10000), 7)
        has = {1: [], 2: [], 3: []}
        for n in range(MANY):
            a, x = rng.randrange(1, 4), rng.choice(pool)
            used = {y for v in has.values() for y in v}
            if x in has[a]:
                table.disassociate(kit.asap(a), [kit.G(x)])
                has[a].remove(x)
            elif x in used or len(used) < 5:
                table.associate(kit.asap(a), [kit.G(x)])
                has[a].append(x)
            else:
                o = call(table.associate, kit.asap(a), [kit.G(x)])
                ctx.expect(not o.ok, "after %d changes a sixth address fits in five places" % n)
            if n % 8 == 0 or n > MANY - 100:
                used = sorted({y for v in has.values() for y in v})
                got = [y.free_style for y in at.addresses]
                who = [[p.value for p in table.get_asaps(j + 1)] for j in range(len(used))]
                want = [[p for p in has if y in has[p]] for y in used]
                if got != used or [sorted(w) for w in who] != want:
                    ctx.expect(
                        False, "after %d changes the tables hold %s for %s, not %s for %s" % (n, got, who, used, want)
                    )
                for p in has:
                    to = call(table.get_tsaps, kit.asap(p))
                    if to.ok and to.value != [used.index(y) + 1 for y in has[p]] or not to.ok and has[p]:
                        ctx.expect(False, "after %d changes point %d leads to %r, not %r" % (n, p, to, has[p]))
        ctx.checks += MANY
        ctx.count("changes of the same tables", MANY)
        ctx.see("aged", ia, tuple(pool))
    ctx.floor(**{"changes of the same tables": MANY})
