"""Tunnelling sessions, and the clients."""

import asyncio
import fcntl
import logging
import re
import runpy
import socket
import struct
import sys
import termios
import threading
import time

import knx_stack as k

from . import age, kit, spec, vloop
from .checks_decode import group_case
from .core import brief, call

NET = k.knxnet_ip
OK = NET.ErrorCodes.E_NO_ERROR
BAD_SEQ = NET.ErrorCodes.E_SEQUENCE_NUMBER


# --------------------------------------------------------------------------- #
class Receiver:
    """The receiving half of a tunnelling client, as the clients do it, watched by
    the automaton of the protocol."""

    def __init__(self, ctx, stack, expected):
        self.ctx, self.s, self.expected = ctx, stack, expected
        self.delivered = []  # in order, by position in the sender's sequence
        self.accepted = 0

    def on(self, frame):
        """One datagram; the acknowledge sent back, if any."""
        ctx, s, e = self.ctx, self.s, self.expected
        channel, q, _, body = spec.parse_tunnel(frame)
        local = s.state.sequence_counter_local
        o = s.decode(frame)
        ctx.expect(
            s.state.sequence_counter_local == local,
            "request %d moves the sending counter from %d to %r"
            % (q, local, s.state.sequence_counter_local),
        )
        ctx.expect(
            o.ok and isinstance(o.value, list) and len(o.value) >= 1,
            "request %d when %d is expected: %s" % (q, e, brief(o)),
        )
        head, rest = o.value[0], [kit.abstract(m) for m in o.value[1:]]
        ctx.expect(
            isinstance(head, NET.tunneling.req.Msg) and head.sequence_counter == q,
            "request %d is announced as %s" % (q, brief(head)),
        )
        fresh = q == e
        again = (q + 1) % 256 == e
        ctx.expect(
            head.status == (OK if fresh or again else BAD_SEQ),
            "request %d when %d is expected has status %s" % (q, e, brief(head.status)),
        )
        want = spec.decode_cemi(s.t, body) if fresh else []
        ctx.expect(
            kit.same(want, rest),
            "request %d when %d is expected delivers %r, not %r" % (q, e, rest, want),
        )
        reply = None
        if head.status == OK:
            reply = s.encoded(NET.tunneling.ack.Msg(head.sequence_counter, head.status))
            ctx.expect(
                reply == spec.tunnel_ack(s.state.communication_channel_id, q, 0),
                "request %d when %d is expected is acknowledged by %s" % (q, e, reply.hex()),
            )
        if fresh:
            self.expected = (e + 1) % 256
            self.accepted += 1
        ctx.expect(
            s.state.sequence_counter_remote == self.expected,
            "after request %d, %d is expected instead of %d"
            % (q, s.state.sequence_counter_remote, self.expected),
        )
        ctx.event(
            "request", q, e, "fresh" if fresh else "repeated" if again else "refused", rest
        )
        ctx.count("requests " + ("fresh" if fresh else "repeated" if again else "refused"))
        self.delivered += rest
        return reply


def ip_stack(rng, t, wild=True):
    s = kit.Stack(t, "ip")
    s.state.communication_channel_id = rng.randrange(256)
    s.state.sequence_counter_remote = rng.randrange(256) if wild else 0
    s.state.sequence_counter_local = rng.randrange(256) if wild else 0
    return s


def S01(ctx):
    """Every tunnelled frame is delivered exactly once, in order."""
    ctx.rule = (
        "a stop-and-wait gateway retransmitting over a channel which loses, duplicates and "
        "delays requests and acknowledges, across counter wraps, and a hostile sender of "
        "arbitrary counters; every step is followed by the protocol automaton and the "
        "delivered sequence is compared with what was sent; non-trivial: distinct "
        "(counter distance, expected counter) and fault schedules"
    )
    for i, rng in ctx.cases("gateway", ctx.more(140, 2500)):
        t = kit.random_tables(rng, n_asaps=3)
        s = ip_stack(rng, t)
        r = Receiver(ctx, s, s.state.sequence_counter_remote)
        ch, seq = s.state.communication_channel_id, r.expected
        loss, dup, late = rng.random() * 0.4, rng.random() * 0.4, rng.random() * 0.3
        sent, old, schedule = [], [], []
        n = rng.choice([20, 60, 300])
        stale_at = 0
        for _ in range(n):
            f, *_ = group_case(ctx, rng, t, rng.choice(["ind", "con"]))
            frame = spec.tunnel_req(ch, seq, f, reserved=0)
            sent.append(spec.decode_cemi(t, f))
            acked = False
            for attempt in range(12):
                if old and rng.random() < late:  # a delayed copy of the previous one
                    r.on(old[-1])
                    schedule.append("late")
                lost = rng.random() < loss
                schedule.append("lost" if lost else "in")
                if lost and attempt < 10:
                    continue
                for _ in range(2 if rng.random() < dup else 1):
                    a = r.on(frame)
                if rng.random() >= loss or attempt == 11:
                    acked = a == spec.tunnel_ack(ch, seq, 0)
                    ctx.expect(acked, "request %d is acknowledged by %r" % (seq, a))
                    break
                schedule.append("ack lost")
            old.append(frame)
            seq = (seq + 1) % 256
            stale_at += 1
        ctx.expect(
            in_order(sent, r.delivered),
            "the messages of %d frames were sent, %d delivered, or in another order"
            % (len(sent), len(r.delivered)),
        )
        ctx.event("session", n, len(sent))
        ctx.see("schedule", hash(tuple(schedule)))
        ctx.sample({"requests": n, "messages": len(r.delivered), "schedule": schedule[:30]})
    for i, rng in ctx.cases("hostile", ctx.more(220, 4000)):
        t = kit.random_tables(rng, n_asaps=3)
        s = ip_stack(rng, t)
        r = Receiver(ctx, s, s.state.sequence_counter_remote)
        for _ in range(rng.choice([30, 120])):
            d = rng.choice([0, 0, 0, -1, -1, 1, 2, -2, 127, 128, 255, rng.randrange(256)])
            f, *_ = group_case(ctx, rng, t, "ind")
            if rng.random() < 0.15:  # something else than a data indication
                f = bytes([rng.randrange(256)]) + f[1:]
            ctx.see("distance", d % 256, r.expected)
            r.on(spec.tunnel_req(s.state.communication_channel_id, (r.expected + d) % 256, f))
    # every counter against every expectation
    t = spec.Tables(0x1001, [(1, 0x0901)], [(1, "DPT_Switch")])
    f = spec.cemi(spec.IND, 0x0901, b"\x00\x81")
    for e in ctx.sweep("expected", range(256)):
        for q in range(0, 256, ctx.scale(3, 1)) if e % 16 else range(256):
            for q in {q, e, (e - 1) % 256, (e + 1) % 256} if q < 3 else {q}:
                s = kit.Stack(t, "ip") if q in (e, (e - 1) % 256) else WIDE.setdefault(0, kit.Stack(t, "ip"))
                s.state.communication_channel_id = 7
                s.state.sequence_counter_remote = e
                Receiver(ctx, s, e).on(spec.tunnel_req(7, q, f))
                ctx.see("pair", e, q)
    # whatever the sending counter is meanwhile, and whatever the frame is
    for e in ctx.sweep("counters", range(256)):
        rng = ctx.rng("counters", e)
        for n in range(256) if ctx.thorough else related(rng, e):
            t = kit.random_tables(rng, n_asaps=2)
            s = kit.Stack(t, "ip", fresh=True)
            s.state.communication_channel_id = rng.choice([0, 255, e, n])
            s.state.sequence_counter_remote, s.state.sequence_counter_local = e, n
            r = Receiver(ctx, s, e)
            kind = rng.choice(["ind", "con"])
            f = rng.choice([
                lambda: group_case(ctx, rng, t, kind)[0],
                lambda: kit.property_frame(rng, t, kind, rng.choice(["response", "write", "read"])),
            ])()
            if rng.random() < 0.2:
                f = f[:1] + bytes([255]) + rng.randbytes(255) + f[2:]
            for q in [e, e, n, e + 1]:
                r.on(spec.tunnel_req(s.state.communication_channel_id, q % 256, f))
            ctx.see("counters", e, n)
    if ctx.thorough:
        ctx.exhaustive.append("every received counter against every expected one")
    age.received(ctx, lambda rng, t: group_case(ctx, rng, t, "ind")[0], "ip")
    ctx.floor(events__session=100, events__request=10000)
    ctx.floor(**{"requests fresh": 5000, "requests repeated": 1000, "requests refused": 2000})


WIDE = {}


def related(rng, x):
    """Values of one counter of interest when another is x."""
    return {x, (x - 1) % 256, (x + 1) % 256, x ^ 0x80, x ^ 0xFF, 0, 1, 127, 128, 254, 255, rng.randrange(256), rng.randrange(256)}


def in_order(sent, got):
    """The messages of each frame, frame after frame; those of one in any order."""
    i = 0
    for msgs in sent:
        if not kit.same(msgs, got[i:i + len(msgs)]):
            return False
        i += len(msgs)
    return i == len(got)


# --------------------------------------------------------------------------- #
def S02(ctx):
    """The sending counter advances with the acknowledges, and only with them."""
    ctx.rule = (
        "histories of requests interleaved with matching, repeated, stale, early and "
        "foreign acknowledges, received requests and connection management, across "
        "wraps, with every status; every emitted request must carry the counter of the automaton; "
        "non-trivial: distinct (counter, distance of the acknowledge)"
    )
    statuses = [x for x in NET.ErrorCodes]
    for i, rng in ctx.cases("history", ctx.more(300, 5000)):
        t = kit.random_tables(rng, n_asaps=3)
        s = ip_stack(rng, t)
        ch, n = s.state.communication_channel_id, s.state.sequence_counter_local
        a = rng.choice([a for a in t.assoc if a])
        for _ in range(rng.choice([20, 60, 400])):
            r = rng.random()
            if r < 0.35:
                out = s.encoded(
                    kit.read_req(kit.asap(a))
                    if rng.random() < 0.7
                    else kit.prop_read_req(kit.asap(0), (0, 1, 1, 1))
                )
                head = spec.parse_tunnel(out)
                ctx.event("sent", n, out.hex())
                ctx.expect(
                    head[:3] == (ch, n, 0),
                    "a request goes out on channel %d with counter %d, not %d with %d"
                    % (head[0], head[1], ch, n),
                )
            elif r < 0.9:
                d = rng.choice([0, 0, 0, -1, -1, 1, 2, 128, rng.randrange(256)])
                q = (n + d) % 256
                st = int(rng.choice(statuses)) if rng.random() < 0.3 else 0
                o = s.decode(spec.tunnel_ack(ch, q, st))
                ctx.event("ack", n, q, st, o)
                ctx.expect(
                    o.ok and isinstance(o.value, list) and len(o.value) == 1
                    and isinstance(o.value[0], NET.tunneling.ack.Msg)
                    and o.value[0].status == st,
                    "acknowledge %d (%d) is delivered as %s" % (q, st, brief(o)),
                )
                ctx.see("ack", n, d % 256)
                if q == n:
                    n = (n + 1) % 256
                ctx.expect(
                    o.value[0].sequence_counter == n,
                    "after acknowledge %d the next request is %d, not %d"
                    % (q, n, o.value[0].sequence_counter),
                )
            elif r < 0.95:
                f, *_ = group_case(ctx, rng, t, "ind")
                s.receive(f)
                ctx.event("received")
            else:
                s.encoded(NET.core.connectionstate.req.Msg("10.0.0.1", 3671))
                s.decode(spec.state_res(ch, 0))
                ctx.event("kept alive")
            ctx.expect(
                s.state.sequence_counter_local == n,
                "the sending counter is %d instead of %d" % (s.state.sequence_counter_local, n),
            )
    # both counters, each whatever the other is
    t = spec.Tables(0x1001, [(1, 0x0901)], [(1, "DPT_Switch")])
    s = kit.Stack(t, "ip")
    f = spec.cemi(spec.IND, 0x0901, b"\x00\x81")
    req = spec.cemi(spec.REQ, 0x0901, b"\x00\x00")
    for n in ctx.sweep("counters", range(256)):
        rng = ctx.rng("counters", n)
        for e in range(256) if ctx.thorough else related(rng, n):
            if rng.random() < 0.1:
                s = kit.Stack(t, "ip", fresh=rng.random() < 0.5)
            st = s.state
            ch = st.communication_channel_id = rng.choice([0, 255, n, e, 7])
            st.sequence_counter_local, st.sequence_counter_remote = n, e
            for q, then in ((n + 1, n), (n, n + 1), (n, n + 1)):
                for _ in range(2):
                    out = s.encoded(kit.read_req(kit.asap(1)))
                    ctx.expect(
                        out == spec.tunnel_req(ch, st.sequence_counter_local, req),
                        "with the counters at %d and %d, a request goes out as %s" % (n, e, out.hex()),
                    )
                status = int(rng.choice([OK, OK, rng.choice(statuses)]))
                o = s.decode(spec.tunnel_ack(ch, q % 256, status))
                ctx.event("ack", n, q, status, o)
                ctx.expect(
                    one(o, NET.tunneling.ack.Msg) and o.value[0].status == status
                    and o.value[0].sequence_counter == then % 256,
                    "with the counters at %d and %d, acknowledge %d is delivered as %s" % (n, e, q % 256, brief(o)),
                )
                got = st.sequence_counter_local, st.sequence_counter_remote
                ctx.expect(
                    got == (then % 256, e),
                    "with the counters at %d and %d, acknowledge %d leaves them at %r" % (n, e, q % 256, got),
                )
            s.decode(spec.tunnel_req(ch, e, f))
            s.encoded(NET.tunneling.ack.Msg(e, OK))
            got = st.sequence_counter_local, st.sequence_counter_remote
            ctx.expect(
                got == ((n + 1) % 256, (e + 1) % 256),
                "with the counters at %d and %d, a request leaves them at %r" % ((n + 1) % 256, e, got),
            )
            ctx.see("counters", n, e)
    if ctx.thorough:
        ctx.exhaustive.append("every pair of counters")
    age.requested(ctx, "ip", lambda rng, t: bus_messages(rng, t, 1)[0])
    ctx.floor(events__sent=3000, events__ack=5000)


# --------------------------------------------------------------------------- #
def S03(ctx):
    """Connection management responses, and whose channel is used."""
    ctx.rule = (
        "histories of accepted and refused connections, state, disconnect and search "
        "responses with random and boundary fields; what is delivered and the channel "
        "carried by the next requests are compared with a model; non-trivial: "
        "distinct (response, status, channel)"
    )
    refusals = [int(x) for x in NET.ConnectResponseStatusCode if x]
    states = [int(x) for x in NET.ConnectionstateResponseStatusCode]

    def endpoint(rng):
        addr = ".".join(str(rng.choice([0, 1, 10, 127, 128, 255, rng.randrange(256)])) for _ in range(4))
        return addr, rng.choice([0, 1, 0xFF, 0x100, 3671, 0xFFFF, rng.randrange(0x10000)])

    for i, rng in ctx.cases("history", ctx.more(700, 12000)):
        t = kit.random_tables(rng, n_asaps=2)
        s = kit.Stack(t, "ip", fresh=True)
        ch = 0
        for _ in range(rng.choice([3, 12])):
            if rng.random() < 0.2:  # those which can not be decoded are as if they were not
                now = SessionModel(t.ia)
                now.remote = s.state.sequence_counter_remote
                g = refused(rng, t, now)
                if g is not None:
                    o = s.decode(g)
                    ctx.event("refused", g.hex())
                    ctx.expect(not o.ok, "%s, which is refused by a fresh stack, is delivered as %s" % (g.hex(), brief(o)))
                    ctx.expect(
                        s.state.communication_channel_id == ch,
                        "%s, which is refused, changes the channel from %d to %r" % (g.hex(), ch, s.state.communication_channel_id),
                    )
            kind = rng.choice(["accept", "accept", "refuse", "bare refuse", "state", "closed", "not closed", "search"])
            addr, port = endpoint(rng)
            c, ia = rng.choice([0, 1, ch, 255, rng.randrange(256)]), rng.choice([0, 0xFFFF, rng.randrange(0x10000)])
            if rng.random() < 0.7:  # a session under way
                s.state.sequence_counter_local = rng.choice([0, 1, 255, rng.randrange(256)])
                s.state.sequence_counter_remote = rng.choice([0, 1, 255, rng.randrange(256)])
            before = s.state.sequence_counter_local, s.state.sequence_counter_remote
            if kind == "accept":
                x = spec.connect_res(c, 0, addr, port, ia)
                if rng.random() < 0.2:  # something after its last block
                    x = spec.ip(spec.CONNECT_RES, x[6:] + rng.randbytes(rng.choice([1, 2, 4, 8])))
                o = s.decode(x)
                ch = c
                good = (
                    one(o, NET.core.connect.res.Msg)
                    and (o.value[0].ip, o.value[0].port, o.value[0].individual_address.free_style, o.value[0].status)
                    == (addr, port, ia, 0)
                )
            elif kind == "refuse":
                st = rng.choice(refusals)
                o = s.decode(spec.ip(spec.CONNECT_RES, bytes([c, st]) + spec.hpai(addr, port)))
                good = (
                    one(o, NET.core.connect.res.Msg)
                    and (o.value[0].ip, o.value[0].port, o.value[0].individual_address, o.value[0].status)
                    == (addr, port, None, st)
                )
            elif kind == "bare refuse":
                st = rng.choice(refusals)
                o = s.decode(spec.refuse_res(st, c))
                good = one(o, NET.core.connect.res.Msg) and o.value[0].status == st and o.value[0].individual_address is None
            elif kind == "state":
                st = rng.choice(states)
                o = s.decode(spec.state_res(rng.choice([ch, c]), st))
                good = (
                    o.ok and len(o.value) == 1 and o.value[0].status == st
                    and type(o.value[0]).__module__.endswith("connectionstate.res")
                )
            elif kind == "closed":
                o = s.decode(spec.disconnect_res(c, 0))
                ch = 0
                good = (
                    one(o, NET.core.disconnect.res.Msg)
                    and (o.value[0].communication_channel_id, o.value[0].status) == (c, 0)
                )
            elif kind == "not closed":
                o = s.decode(spec.disconnect_res(c, rng.choice([1, 2, 3, 0x21])))
                good = o.ok and o.value == []
            else:
                medium = rng.choice([1, 2, 4, 0x10, 0x20])
                status = rng.choice([0, 1])
                rest = rng.randbytes(rng.choice([0, 48, 72]))
                o = s.decode(spec.search_res(addr, port, ia, medium, status, rest))
                good = one(o, NET.core.search.res.Msg) and (o.value[0].ip, o.value[0].port) == (addr, port)
                if good:
                    got = int(getattr(o.value[0].individual_address, "value", -1)
                              if not hasattr(o.value[0].individual_address, "free_style")
                              else o.value[0].individual_address.free_style)
                    if got != ia:
                        what = "a search response from %04x is delivered as from %04x" % (ia, got)
                        if got == medium << 8 | status:
                            ctx.finding("search-response-address", what)
                            ctx.count("known wrong search addresses")
                        else:
                            ctx.expect(False, what)
            ctx.event("response", kind, c, o)
            ctx.expect(good, "response %s on channel %d is delivered as %s" % (kind, c, brief(o)))
            ctx.expect(
                s.state.communication_channel_id == ch,
                "after %s the channel is %r, not %d" % (kind, s.state.communication_channel_id, ch),
            )
            ctx.expect(
                kind == "accept"
                or before == (s.state.sequence_counter_local, s.state.sequence_counter_remote),
                "%s moved the counters" % kind,
            )
            for m, service in (
                (NET.core.connectionstate.req.Msg("10.0.0.1", 3671), spec.STATE_REQ),
                (NET.core.disconnect.req.Msg("10.0.0.1", 3671), spec.DISCONNECT_REQ),
            ):
                got = spec.parse_ip(s.encoded(m))
                ctx.expect(
                    got == (service, bytes([ch, 0]) + spec.hpai("10.0.0.1", 3671)),
                    "after %s a request is %r, channel %d is in use" % (kind, got, ch),
                )
            a = rng.choice([a for a in t.assoc if a])
            for _ in range(rng.choice([0, 0, 1, 4])):  # traffic leaves it alone
                far, q = rng.choice([ch, ch, c]), rng.randrange(256)
                f, *_ = group_case(ctx, rng, t, rng.choice(["ind", "con"]))
                x = rng.choice([
                    spec.tunnel_req(far, rng.choice([q, s.state.sequence_counter_remote]), f),
                    spec.tunnel_ack(far, rng.choice([q, s.state.sequence_counter_local])),
                    spec.tunnel_ack(far, q, 0x21),
                    rng.randbytes(rng.randrange(12)),
                ])
                o = s.decode(x)
                ctx.event("traffic", x.hex())
                ctx.expect(
                    s.state.communication_channel_id == ch,
                    "after %s (%s) the channel is %r, not %d"
                    % (x.hex(), brief(o), s.state.communication_channel_id, ch),
                )
            head = spec.parse_tunnel(s.encoded(kit.read_req(kit.asap(a))))
            ctx.expect(head[0] == ch, "after %s requests use channel %d, not %d" % (kind, head[0], ch))
            ctx.event("channel", ch)
            ctx.see("response", kind, c)
            if rng.random() < 0.1:
                for v in (0x01, 0x02, 0x03, 0x08):
                    x = bytearray(spec.connect_res(9, 0))
                    x[rng.choice([0, 1])] = 0x20 + v  # another protocol or version
                    o = s.decode(bytes(x))
                    ctx.expect(o.ok and o.value == [] and s.state.communication_channel_id == ch,
                               "a frame of another protocol is delivered as %s" % brief(o))
    ctx.floor(events__response=2000)


def one(o, cls):
    return o.ok and isinstance(o.value, list) and len(o.value) == 1 and isinstance(o.value[0], cls)


# --------------------------------------------------------------------------- #
class Wire:
    """A datagram transport which records."""

    def __init__(self, loop):
        self.loop, self.sent, self.closed = loop, [], False

    def sendto(self, data, addr=None):
        self.sent.append((self.loop.time(), bytes(data), addr))

    def close(self):
        self.closed = True

    def is_closing(self):
        return self.closed

    def get_extra_info(self, *a):
        return None


HERE, THERE = ("192.168.1.7", 5544), ("192.168.1.250", 3671)


def bus_messages(rng, t, n, most=0):
    """Application messages and the cEMI frames they stand for; with most, also property
    writes of up to as many octets."""
    bare = kit.Stack(t, "tp")
    out = []
    asaps = [a for a in t.assoc if a]
    for _ in range(n):
        a = rng.choice(asaps)
        if a in t.types and rng.random() < 0.7:
            d = spec.TYPES[t.types[a]]
            for _ in range(100):  # the clients log what they send: no undefined codes
                w = kit.random_word(rng, d)
                m = kit.write_req(kit.asap(a), kit.dpt(d.name, w))
                if call(repr, m).ok:
                    break
            f = spec.cemi(spec.REQ, t.sending_address(a), spec.tpdu_group(spec.WRITE, d, w))
        elif most and rng.random() < 0.4:
            h = (rng.getrandbits(8), 1, 1, rng.getrandbits(12))
            data = rng.randbytes(rng.choice([0, 1, most // 4, most // 2, most - 1, most, rng.randrange(most)]))
            m = kit.prop_write_req(kit.asap(0), h, data)
            f = spec.cemi(spec.REQ, t.ia, spec.tpdu_property(spec.PROP_WRITE, *h, data), group=False)
        elif rng.random() < 0.3:
            h = (rng.getrandbits(8), 1, 1, rng.getrandbits(12))
            m = kit.prop_read_req(kit.asap(0), h)
            f = spec.cemi(spec.REQ, t.ia, spec.tpdu_property(spec.PROP_READ, *h), group=False)
        else:
            m = kit.read_req(kit.asap(a))
            f = spec.cemi(spec.REQ, t.sending_address(a), spec.tpdu_group(spec.READ, None, 0))
        out.append((m, f))
    return out


class SessionModel:
    """What a tunnelling client must have sent after each datagram it received."""

    def __init__(self, ia):
        self.channel, self.up, self.ever = 0, False, False
        self.local = self.remote = 0

    def on(self, kind, frame):
        """The datagrams the client answers with."""
        if kind == "accept":
            self.channel = frame[6]
            self.local = self.remote = 0
            self.up = True
            return [spec.ip(spec.STATE_REQ, bytes([self.channel, 0]) + spec.hpai(*HERE))]
        if kind == "request":
            q = frame[8]
            if q == self.remote:
                self.remote = (q + 1) % 256
            elif (q + 1) % 256 != self.remote:
                return []
            return [spec.tunnel_ack(self.channel, q, 0)]
        if kind == "ack" and frame[8] == self.local:
            self.local = (self.local + 1) % 256
        return []


def refused(rng, t, model):
    """A datagram of a known service which is cut off, or says something undefined, if
    it is one that can not be decoded."""
    if rng.random() < 0.5:
        return None
    ch = rng.choice([model.channel, rng.randrange(256)])
    g = rng.choice([
        spec.connect_res(ch, 0, *THERE, rng.randrange(0x10000)),
        spec.connect_res(ch, rng.choice([0x25, 0x2A, 0xEE])),
        spec.refuse_res(rng.choice([0x24, 0x7E]), ch),
        spec.state_res(ch, rng.choice([0, 0x77])),
        spec.disconnect_res(ch, 0),
        spec.search_res("10.0.0.1", 3671, rng.randrange(0x10000)),
        spec.tunnel_ack(ch, rng.randrange(256)),
        spec.tunnel_req(ch, rng.randrange(256), b"\x29\x00\xbc\xe0"),
    ])
    if rng.random() < 0.6:
        g = g[:rng.randrange(6, len(g))]
    twin = kit.Stack(t, "ip", fresh=True)
    twin.state.sequence_counter_remote = model.remote  # a repeated one is not looked into
    return None if twin.decode(g).ok else g


def S04(ctx):
    """The tunnelling client's session."""
    ctx.limit(300)
    ctx.rule = (
        "the real client on a virtual clock with a recording transport: accepted, refused, "
        "repeated and renewed connections, requests lost/duplicated/reordered/garbled, "
        "acknowledges early, late and missing, at random instants around its own sends; "
        "every datagram it sends is predicted by an automaton; then the same over real "
        "UDP sockets against a retransmitting gateway; non-trivial: distinct event orders"
    )
    cases = [("virtual", ctx.more(260, 5000)), ("long", ctx.more(5, 60))]
    for i, rng, long in ((i, rng, w == "long") for w, n in cases for i, rng in ctx.cases(w, n)):
        t = kit.random_tables(rng, n_asaps=3)
        with vloop.using(vloop.Loop()) as loop:
            s = kit.Stack(t, "ip", fresh=rng.random() < 0.8)
            todo = bus_messages(rng, t, rng.choice([270, 330]) if long else rng.choice([0, 1, 3, 6, 12]), most=249)
            if todo and rng.random() < 0.3:  # the very same message again is one more message
                x = rng.choice(todo)
                for _ in range(rng.choice([1, 2, 5])):
                    todo.insert(rng.choice([todo.index(x), rng.randrange(len(todo) + 1)]), x)
                ctx.count("repeated")
            msgs = [m for m, _ in todo]
            c = k.client.knxnet_ip.Tunneling(
                HERE[0], HERE[1], THERE[0], THERE[1], s.state,
                rng.choice([iter, tuple, list, list])(msgs),
            )
            wire = Wire(loop)
            model = SessionModel(t.ia)
            order = []
            c.connection_made(wire)
            want = [
                spec.ip(
                    spec.CONNECT_REQ, spec.hpai(*HERE) + spec.hpai(*HERE) + bytes([4, 4, 2, 0])
                )
            ]
            ctx.expect(
                [d for _, d, _ in wire.sent] == want,
                "the client opens with %r" % [d.hex() for _, d, _ in wire.sent],
            )
            seen = [1]

            def take():
                new = wire.sent[seen[0]:]
                seen[0] = len(wire.sent)
                for _, d, addr in new:
                    ctx.expect(addr in (None, THERE), "a datagram goes to %r" % (addr,))
                return [d for _, d, _ in new]

            pending = [f for _, f in todo]

            def writes(when):
                """Requests sent by the writer since the last look."""
                for d in take():
                    ctx.event("sent", when, d.hex())
                    ctx.expect(
                        model.up, "before any connection the client sends %s" % d.hex()
                    )
                    ctx.expect(bool(pending), "the client sends once more %s" % d.hex())
                    want = spec.tunnel_req(model.channel, model.local, pending.pop(0))
                    ctx.expect(
                        d == want,
                        "the client sends %s, not %s (channel %d, counter %d)"
                        % (d.hex(), want.hex(), model.channel, model.local),
                    )

            def inject(kind, frame):
                writes("before " + kind)
                if kind == "error":  # reported by the network, of an earlier datagram
                    for _ in range(rng.choice([1, 1, 2, 12, 80, 300])):
                        o = call(c.error_received, frame)
                        ctx.count("network errors")
                    frame = b""
                else:
                    o = call(c.datagram_received, frame, THERE)
                if kind == "garbage" and not o.ok:
                    ctx.count("garbage refused")
                else:
                    ctx.expect(o.ok, "datagram %s: %s" % (frame.hex(), brief(o)))
                ctx.event("received", kind, frame.hex())
                want, got = model.on(kind, frame), take()
                ctx.expect(
                    got == want,
                    "%s %s is answered by %r, not %r"
                    % (kind, frame.hex(), [x.hex() for x in got], [x.hex() for x in want]),
                )
                ctx.expect(
                    bool(c.connected) == model.up,
                    "after %s the client is %sconnected" % (kind, "" if c.connected else "not "),
                )
                order.append(kind)

            def frame_for(kind):
                if kind == "accept":
                    return spec.connect_res(rng.randrange(256), 0, *THERE, rng.randrange(0x10000))
                if kind == "refuse":
                    st = rng.choice([0x22, 0x23, 0x24])
                    ch = rng.choice([0, 9])
                    return rng.choice(
                        [spec.refuse_res(st, ch),
                         spec.ip(spec.CONNECT_RES, bytes([ch, st]) + spec.hpai(*THERE))]
                    )
                if kind == "request":
                    f, *_ = group_case(ctx, rng, t, rng.choice(["ind", "con"]))
                    d = rng.choice([0, 0, 0, -1, 1, rng.randrange(256)])
                    return spec.tunnel_req(model.channel, (model.remote + d) % 256, f)
                if kind == "ack":
                    d = rng.choice([0, 0, 0, -1, 1, rng.randrange(256)])
                    if long and rng.random() < 0.9:
                        d = 0
                    return spec.tunnel_ack(model.channel, (model.local + d) % 256)
                if kind == "error":
                    return rng.choice(
                        [OSError(e, "reported") for e in
                         (1, 4, 11, 12, 13, 32, 90, 98, 99, 100, 101, 103, 104, 105, 110, 111, 111, 112, 113, 113)]
                        + [OSError("no number"), TimeoutError()]
                    )
                if kind == "state":
                    return spec.state_res(model.channel, rng.choice([0, 0, 0x21, 0x26, 0x27]))
                good = spec.tunnel_req(model.channel, model.remote, b"\x29\x00\xbc\xe0")
                cut = refused(rng, t, model)
                if cut is not None:
                    return cut
                return rng.choice(
                    [b"", rng.randbytes(3), good[:rng.randrange(5)], b"\x06\x10\x05\x30" + rng.randbytes(9)]
                )

            task = loop.create_task(c.writer())
            horizon = 0.0
            plan = []
            first = rng.choice(["accept", "accept", "refuse", "state", "request", "error"])
            some = ["request", "request", "request", "ack", "ack", "ack", "state", "garbage", "refuse", "accept", "error"]
            rest = [rng.choice(some) for _ in range(rng.choice([3, 15, 40]))]
            if long:  # both counters wrap in one connection
                rest = rng.choices(["request", "ack", "state", "garbage"], [8, 5, 1, 1], k=1100)
                for at_ in rng.sample([200, 500, 600, 1000], rng.choice([0, 1, 2])):
                    rest.insert(at_, "accept")  # a renewed one begins again, wherever they are
            for kind in [first] + rest:
                # on the tick of the client's own timers, next to it, or anywhere
                horizon += rng.random() * 2 if long else rng.choice([0, 0, 0.5, 1, 3, 2.9999, rng.random() * 4])
                plan.append((horizon, kind))
            raised = []

            def at(kind):
                try:
                    inject(kind, frame_for(kind))
                except BaseException as e:
                    raised.append(e)
                    loop.stop()

            def early(kind):
                # what comes before a connection is not this session's
                return not model.up and kind in ("request", "ack")

            for when, kind in plan:
                loop.call_at(when, lambda kind=kind: None if early(kind) else at(kind))
            how = loop.run_until(horizon + 0.5)
            if raised:
                raise raised[0]
            writes("end")
            if not model.up and not raised:
                ctx.expect(
                    len(wire.sent) == 1, "not connected, the client sends %d datagrams" % len(wire.sent)
                )
                at("accept")
                if raised:
                    raise raised[0]
            if not task.done():
                how = loop.run_until(loop.time() + 10 + 4 * len(todo))
            if raised:
                raise raised[0]
            writes("end")
            ctx.expect(
                task.done() and not task.cancelled() and task.exception() is None,
                "the writer ended as %s" % brief(task),
            )
            ctx.expect(not pending, "%d messages were never sent" % len(pending))
            ctx.expect(not loop.errors, "the loop reports %s" % brief(loop.errors))
            for _ in range(rng.choice([0, 0, 1, 40])):  # once all is sent
                at(rng.choice(["error", "error", "request", "ack", "state", "garbage"]))
                if raised:
                    raise raised[0]
            ctx.event("session", len(order), len(todo))
            if long:
                ctx.event("long", len(order), model.local, model.remote)
            ctx.see("order", tuple(order))
    for i, rng in ctx.cases("udp", ctx.more(12, 150)):
        udp_session(ctx, rng)
    for i, rng in ctx.cases("program", ctx.more(25, 200)):
        tunnelling_program(ctx, rng)
    age.tunnelling_client(ctx, bus_messages, HERE, THERE)
    ctx.floor(
        events__session=200, events__received=2000, events__sent=500, events__udp=8, events__program=20
    )


def tunnelling_program(ctx, rng):
    """python -m knx_stack.client.knxnet_ip: connects, turns a light on and off, ends."""
    ch = rng.randrange(256)
    refusals = rng.choice([0, 0, 1, 3])
    acks = rng.random() < 0.7

    class L(Endpoints):
        def opened(self, w, p):
            super().opened(w, p)
            at = 0.1
            for _ in range(refusals):
                self.call_later(at, p.datagram_received, spec.connect_res(0, 0x24, *THERE), THERE)
                at += rng.random() * 3
            self.call_later(at, p.datagram_received, spec.connect_res(ch, 0, *THERE), THERE)
            if acks:
                self.call_later(at + 1.5, self.acknowledge, w, p, 1)

        def acknowledge(self, w, p, turns):
            for _, d, _ in w.sent:
                if d[2:4] == b"\x04\x20" and d not in self.acked:
                    self.acked.append(d)
                    p.datagram_received(spec.tunnel_ack(d[7], d[8]), THERE)
            if turns < 20 and not w.closed:
                self.call_later(1, self.acknowledge, w, p, turns + 1)

    loop = L()
    loop.acked = []
    o, _ = run_program("knx_stack.client.knxnet_ip", [], loop)
    ctx.event("program", ch, refusals, acks, [(kw, [d.hex() for _, d, _ in w.sent]) for _, kw, w, _ in loop.ends])
    ctx.expect(o.ok and len(loop.ends) == 1, "the program ends with %s, endpoints %s" % (brief(o), brief(loop.ends)))
    _, kw, w, _ = loop.ends[0]
    me, other = kw.get("local_addr"), kw.get("remote_addr")
    ctx.expect(
        isinstance(me, tuple) and isinstance(other, tuple) and me != other, "the program's endpoint is %r" % (kw,)
    )
    ctx.expect(all(to in (None, other) for _, _, to in w.sent), "the program sends to %r" % (w.sent,))
    sent = [d for _, d, _ in w.sent]
    hp = spec.hpai(*me)
    want = [spec.ip(spec.CONNECT_REQ, hp + hp + bytes([4, 4, 2, 0])), spec.ip(spec.STATE_REQ, bytes([ch, 0]) + hp)]
    ctx.expect(
        sent[:2] == want, "the program at %r opens with %r" % (me, [d.hex() for d in sent[:2]])
    )
    light = b"".join(d[16:18] for d in sent[2:3])
    want = [
        spec.tunnel_req(ch, q, spec.cemi(spec.REQ, int.from_bytes(light, "big"), spec.tpdu_group(spec.WRITE, spec.TYPES["DPT_Switch"], v)))
        for q, v in ((0, 1), (1 if acks else 0, 0))
    ]
    ctx.expect(
        sent[2:] == want,
        "the program on channel %d sends %r, not %r" % (ch, [d.hex() for d in sent[2:]], [d.hex() for d in want]),
    )
    ctx.expect(w.closed, "the program leaves its endpoint open")
    ctx.see("program", ch, refusals, acks)


class Gateway(asyncio.DatagramProtocol):
    """A KNXnet/IP tunnelling server over a real socket: stop and wait, repeats what
    is not acknowledged, loses some datagrams on purpose."""

    def __init__(self, ctx, rng, t, n):
        self.ctx, self.rng, self.t = ctx, rng, t
        self.todo = [group_case(ctx, rng, t, "ind")[0] for _ in range(n)]
        self.channel = rng.randrange(1, 256)
        self.seq, self.expected = 0, 0
        self.bus, self.acks, self.log = [], [], []
        self.loss = rng.random() * 0.3
        self.peer = None
        self.wait = None

    def connection_made(self, transport):
        self.transport = transport

    def send(self, data):
        self.log.append(("out", data.hex()))
        self.transport.sendto(data, self.peer)

    def datagram_received(self, data, addr):
        self.peer = addr
        service, body = spec.parse_ip(data)
        self.log.append(("in", data.hex()))
        if service == spec.CONNECT_REQ:
            self.send(spec.connect_res(self.channel, 0, *self.transport.get_extra_info("sockname")))
        elif service == spec.STATE_REQ:
            self.send(spec.state_res(self.channel, 0 if body[0] == self.channel else 0x21))
            self.next()
        elif service == spec.TUNNEL_REQ:
            channel, q, _, f = spec.parse_tunnel(data)
            if channel != self.channel:
                return
            if q == self.expected:
                self.bus.append(f)
                self.expected = (q + 1) % 256
            elif (q + 1) % 256 != self.expected:
                self.log.append(("discarded", q))
                return
            self.send(spec.tunnel_ack(self.channel, q))
        elif service == spec.TUNNEL_ACK:
            if self.rng.random() < self.loss:
                return
            self.acks.append((body[1], body[2], body[3]))
            if body[2] == self.seq and self.todo:
                self.todo.pop(0)
                self.seq = (self.seq + 1) % 256
                self.next()

    def next(self):
        if self.wait:
            self.wait.cancel()
        if not self.todo:
            return
        frame = spec.tunnel_req(self.channel, self.seq, self.todo[0])
        if self.rng.random() >= self.loss:
            self.send(frame)
            if self.rng.random() < self.loss:
                self.send(frame)
        self.wait = asyncio.get_running_loop().call_later(1, self.next)


def udp_session(ctx, rng):
    t = kit.random_tables(rng, n_asaps=3)
    with vloop.using(vloop.Loop(grace=0.002)) as loop:
        s = kit.Stack(t, "ip")
        todo = bus_messages(rng, t, 4)
        n = rng.choice([10, 60, 300])
        gw = Gateway(ctx, rng, t, n)
        gt, _ = loop.run_until_complete(
            loop.create_datagram_endpoint(lambda: gw, local_addr=("127.0.0.1", 0))
        )
        port = gt.get_extra_info("sockname")[1]
        with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as free:
            free.bind(("127.0.0.1", 0))
            mine = free.getsockname()[1]
        c_t, c = loop.run_until_complete(
            k.client.knxnet_ip.start_tunneling(
                "127.0.0.1", mine, "127.0.0.1", port, s.state, [m for m, _ in todo]
            )
        )
        task = loop.create_task(c.writer())
        loop.run_until(loop.time() + 60)
        loop.run_until(loop.time() + 3 * n)
        ctx.event("udp", n, len(gw.log))
        ctx.expect(
            task.done() and task.exception() is None, "the writer ended as %s" % brief(task)
        )
        ctx.expect(
            gw.bus == [f for _, f in todo],
            "the gateway put %r on the bus, not %r" % ([f.hex() for f in gw.bus], [f.hex() for _, f in todo]),
        )
        ctx.expect(
            not gw.todo, "%d frames were never acknowledged to the gateway" % len(gw.todo)
        )
        ctx.expect(
            all(a[0] == gw.channel and a[2] == 0 for a in gw.acks), "acknowledges %r" % gw.acks
        )
        ctx.expect(not loop.errors, "the loop reports %s" % brief(loop.errors))
        ctx.see("udp", n, len(gw.log))
        ctx.count("udp datagrams", len(gw.log))
        gt.close()
        c_t.close()


# --------------------------------------------------------------------------- #
class Records(logging.Handler):
    """Every record of the code's loggers, as its user reads it."""

    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def __enter__(self):
        self.log = logging.getLogger("knx_stack.client")
        self.was = self.log.level, self.log.propagate
        self.log.setLevel(1)
        self.log.addHandler(self)
        self.log.propagate = False
        return self

    def __exit__(self, *exc):
        self.log.removeHandler(self)
        self.log.setLevel(self.was[0])
        self.log.propagate = self.was[1]


def S05(ctx):
    """The USB client."""
    ctx.limit(300)
    ctx.rule = (
        "the real client against a line server on the loopback, on a virtual clock: valid, "
        "foreign, malformed and undecodable lines, split and coalesced at random, empty "
        "lines, then the end of the stream before, while or after the client's sends; "
        "the lines it sends and the messages it reports are compared with the reference; "
        "non-trivial: distinct (kinds of lines, splits)"
    )
    for i, rng in ctx.cases("session", ctx.more(90, 1200)):
        usb_session(ctx, rng)
    for i, rng in ctx.cases("long", ctx.more(3, 60)):
        usb_session(ctx, rng, long=True)
    for i, rng in ctx.cases("program", ctx.more(25, 200)):
        usb_program(ctx, rng)
    age.usb_client(ctx, bus_messages, Records)
    ctx.floor(events__sent=60, events__reported=250, events__junk=100, events__program=20)


def usb_program(ctx, rng):
    """python -m knx_stack.client.usbhid: a light on and off, a property read."""
    got, asked, tasks = bytearray(), [], []
    switch = spec.TYPES["DPT_Switch"]
    values = [(rng.choice(["ind", "con"]), rng.getrandbits(1)) for _ in range(rng.choice([0, 1, 4]))]

    async def serve(reader, writer):
        light = None
        while True:
            line = await reader.readline()
            if not line:
                return
            got.extend(line)
            if light is None:
                light = int(line[34:38], 16)
                for kind, v in values:
                    f = spec.cemi(spec.IND if kind == "ind" else spec.CON, light, spec.tpdu_group(spec.WRITE, switch, v))
                    writer.write(spec.usb(f).hex().encode() + b"\n")

    class L(vloop.Loop):
        async def create_connection(self, factory, host=None, port=None, **kw):
            asked.append((host, port))
            return await super().create_connection(factory, *here, **kw)

        def close(self):
            for x in asyncio.all_tasks(self):
                x.cancel()
            super().close()

    loop = L(grace=0.002)
    asyncio.set_event_loop(loop)
    server = loop.run_until_complete(asyncio.start_server(serve, "127.0.0.1", 0))
    here = server.sockets[0].getsockname()
    o, text = run_program("knx_stack.client.usbhid", [], loop)
    server.close()
    lines = got.decode().split()
    ctx.event("program", lines, values)
    ctx.expect(o.ok, "the program ends with %s" % brief(o))
    ctx.expect(len(asked) == 1, "the program connects to %r" % asked)
    light, me = (int(lines[n][34:38] if len(lines) > n else "0", 16) for n in (0, 2))
    want = [
        spec.usb(spec.cemi(spec.REQ, light, spec.tpdu_group(spec.WRITE, switch, v))) for v in (1, 0)
    ] + [spec.usb(spec.cemi(spec.REQ, me, spec.tpdu_property(spec.PROP_READ, 1, 0xC9, 1, 1), group=False))]
    want = [x.hex() for x in want]
    ctx.expect(
        [x.lower() for x in lines] == want, "the program sends %r, not %r" % (lines, want)
    )
    pos = 0
    for kind, v in values:
        x = r"GroupValueWrite%s .*DPT_Switch \{'action': '%s'\} for asap 2" % (kind.title(), ["off", "on"][v])
        m = re.compile(x).search(text, pos)
        ctx.expect(bool(m), "%s is not printed (in order): %s" % (x, brief(text, 2000)))
        pos = m.end()
    ctx.see("program", tuple(values))


def usb_session(ctx, rng, long=False):
    t = kit.random_tables(rng, n_asaps=3)
    with Records() as seen, vloop.using(vloop.Loop(grace=0.002)) as loop:
        s, twin = kit.Stack(t, "usb"), kit.Stack(t, "usb")
        todo = bus_messages(rng, t, rng.choice([30, 270]) if long else rng.choice([1, 2, 4]))
        if rng.random() < 0.3:  # the very same message again is one more message
            x = rng.choice(todo)
            for _ in range(rng.choice([1, 2, 5])):
                todo.insert(rng.choice([todo.index(x), rng.randrange(len(todo) + 1)]), x)
            ctx.count("repeated")
        msgs = [m for m, _ in todo]
        if rng.random() < 0.3:  # one which can not be sent is skipped
            nobody = max(t.assoc) + 1
            for _ in range(rng.choice([1, 1, 1, 2, 30, 120])):
                msgs.insert(
                    rng.randrange(len(msgs) + 1),
                    rng.choice([kit.read_req(kit.asap(nobody)), kit.write_req(kit.asap(nobody), kit.dpt("DPT_Switch", 1))]),
                )
            ctx.event("refused", len(msgs))
        lines, expected, kinds = [], [], []
        for _ in range(rng.choice([300, 700]) if long else rng.choice([0, 3, 10, 40])):
            r = rng.random()
            if r < 0.55:
                f, *_ = group_case(ctx, rng, t, rng.choice(["ind", "con"]))
                report = spec.usb(f).ljust(56, b"\0")
                lines.append(rng.choice([report.hex(), report.hex().upper()]).encode())
                o = twin.decode(report)
                kinds.append("report")
                shown = call(repr, o.value)
                # a list of messages, as it shows; nothing to compare for an
                # empty one or an undefined code, which has no text
                if o.ok and o.value and shown.ok:
                    expected.append(shown.value)
            elif r < 0.62:  # nearly a report of a message
                f, *_ = group_case(ctx, rng, t, rng.choice(["ind", "con"]))
                x = spec.usb(f).ljust(56, b"\0").hex().encode()
                n = rng.randrange(len(x))
                lines.append(
                    rng.choice(
                        [b"\xef\xbb\xbf" + x, b"0x" + x, b"garbage\r" + x, b" \r" + x, b"\0" + x,
                         x[:n] + rng.choice([b" ", b"\0", b"\r", b"\t", b"-", b"_", b"g", b"\xff", b"\xc3\xa9"]) + x[n:]]
                    )
                )
                ctx.event("junk", lines[-1])
                kinds.append("near")
            elif r < 0.9:
                lines.append(
                    rng.choice(
                        [b"", b"zz", b"0113", b"01130", b"hello there", b"\xff\xfe\x00",
                         spec.usb(b"\x29").hex().encode(), b"01" * 500,
                         bytes(rng.choice(b"0123456789abcdefXYZ \t") for _ in range(30))]
                        + [b"z" * rng.choice([60000, 65535, 65536, 70000, 200000])] * (rng.random() < 0.2)
                    )
                )
                ctx.event("junk", lines[-1][:2000])
                kinds.append("junk")
            else:
                lines.append(spec.usb(bytes([3, 1]), protocol=0x0F, emi=4).hex().encode())
                expected.append("[ConnectionStatus(status='Connected')]")
                kinds.append("feature")
        end = rng.choice(["stay", "stay", "eof", "eof in a line", "reset"])
        stream = b"".join(x + b"\n" for x in lines)
        if end == "eof in a line":
            stream += b"0113"
        cuts = sorted(rng.randrange(len(stream) + 1) for _ in range(rng.choice([0, 3, 12])))
        got = bytearray()
        closed = []

        async def serve(reader, writer):
            async def push():
                pos = 0
                for cut in cuts + [len(stream)]:
                    writer.write(stream[pos:cut])
                    await writer.drain()
                    pos = cut
                    await asyncio.sleep(rng.choice([0, 0.1, 2]))
                if end == "reset":
                    # a reset throws away what is still on its way
                    sock = writer.get_extra_info("socket")
                    for _ in range(500):
                        await asyncio.sleep(1)
                        q = fcntl.ioctl(sock.fileno(), termios.TIOCOUTQ, b"\0" * 4)
                        if not writer.transport.get_write_buffer_size() and q == b"\0" * 4:
                            break
                    await asyncio.sleep(4)
                    sock.setsockopt(
                        socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)
                    )
                    writer.transport.abort()
                    closed.append(loop.time())
                elif end != "stay":
                    writer.write_eof()
                    closed.append(loop.time())

            p = loop.create_task(push())
            while True:
                data = await reader.read(4096)
                if not data:
                    break
                got.extend(data)
            await p

        server = loop.run_until_complete(asyncio.start_server(serve, "127.0.0.1", 0))
        port = server.sockets[0].getsockname()[1]
        c = k.client.usbhid.Client("127.0.0.1", port, s.state, msgs)
        # everything is sent and read well before the loop is stopped by the client
        stops = []
        real_stop = loop.stop
        loop.stop = lambda: (stops.append(loop.time()), real_stop())
        try:
            c.run()
            loop.stop = real_stop
            loop.run_until(loop.time() + 100)
        except vloop.Idle:
            pass
        finally:
            loop.stop = real_stop
        for _ in range(3):
            loop.run_until(loop.time() + 1)
        want = b"".join(spec.usb(f).hex().upper().encode() + b"\n" for _, f in todo)
        ctx.event("sent", bytes(got))
        ctx.expect(
            bytes(got).upper() == want
            or end == "reset" and want.startswith(bytes(got).upper()) and got.count(b"\n") >= min(len(todo), 2),
            "the client sends %r, not %r" % (bytes(got), want),
        )
        ctx.expect(
            len(stops) >= 1, "the client does not end after its last message"
        )
        pos = 0
        for x in expected:
            while pos < len(seen.lines) and x not in seen.lines[pos]:
                pos += 1
            ctx.expect(
                pos < len(seen.lines),
                "the client does not report %s (in order); it reports %s" % (x, brief(seen.lines, 2000)),
            )
            ctx.event("reported", seen.lines[pos])
            pos += 1
        reports = sum(1 for x in seen.lines if re.search(r"\[(Group|Property|Connection)", x))
        ctx.expect(
            reports <= len(expected) + 0,
            "the client reports %d lists of messages, %d came" % (reports, len(expected)),
        )
        ctx.expect(
            len(seen.lines) <= 3 * (len(lines) + len(msgs)) + 20,
            "the client reports %d lines for %d received" % (len(seen.lines), len(lines)),
        )
        ctx.see("session", tuple(kinds), tuple(cuts), end)
        server.close()


# --------------------------------------------------------------------------- #
def S06(ctx):
    """Discovery."""
    ctx.limit(300)
    ctx.rule = (
        "the discovery request and listener on recording transports with random endpoints, "
        "search responses of gateways of all sizes and garbage; the command line program "
        "run with recorded endpoints; non-trivial: distinct endpoints"
    )
    mod = k.client.knxnet_ip_discovery
    for i, rng in ctx.cases("request", ctx.more(500, 8000)):
        with vloop.using(vloop.Loop()) as loop, Records() as seen:
            addr = ".".join(str(rng.choice([1, 10, 127, 192, 255, rng.randrange(256)])) for _ in range(4))
            port = rng.choice([1, 0xFF, 0x100, 5544, 0xFFFF, rng.randrange(1, 0x10000)])
            wire = Wire(loop)
            r = mod.Request(addr, port)
            r.connection_made(wire)
            ctx.event("request", addr, port, wire.sent)
            ctx.expect(
                [(d, a) for _, d, a in wire.sent]
                == [(spec.ip(spec.SEARCH_REQ, spec.hpai(addr, port)), ("224.0.23.12", 3671))],
                "the search from %s:%d is %r" % (addr, port, wire.sent),
            )
            r.datagram_received(rng.randbytes(rng.randrange(20)), ("10.0.0.9", 1))
            l = mod.Listen()
            ear = Wire(loop)
            l.connection_made(ear)
            found = [("10.0.0.9", 3671)]
            for _ in range(300 if rng.random() < 0.01 else rng.choice([1, 4])):
                if rng.random() < 0.4:
                    junk = rng.choice([b"", b"\x06", b"\x06\x10\x02\x02", rng.randbytes(12)])
                    call(l.datagram_received, junk, ("10.0.0.9", 3671))
                    ctx.event("junk", junk)
                if rng.random() < 0.2:
                    for _ in range(rng.choice([1, 1, 2, 30])):
                        rng.choice([l, l, r]).error_received(ConnectionRefusedError(111, "refused"))
                gw = ".".join(str(rng.choice([0, 255, rng.randrange(256), rng.randrange(256)])) for _ in range(4))
                p = rng.choice([0, 1, 0x100, 0xFFFF] + 8 * [rng.randrange(1, 0x10000)])
                if rng.random() < 0.5:  # a neighbour of one which has answered
                    o = rng.choice(found)
                    gw, p = rng.choice([(o[0], p), (gw, o[1]), (o[0], o[1] ^ 1)])
                if (gw, p) in found:
                    continue
                found.append((gw, p))
                before = len(seen.lines)
                # the endpoint which answers is not always the one of its service
                source = rng.choice([(gw, 3671), (gw, p), (gw, rng.randrange(1, 0x10000)),
                                     ("10.0.0.%d" % rng.randrange(256), 3671), ("224.0.23.12", 3671)])
                l.datagram_received(
                    spec.search_res(
                        gw, p, rng.choice([0, 0xFFFF, rng.randrange(0x10000), rng.randrange(0x10000)]),
                        rng.choice([0, 1, 2, 4, 0x10, 0x20, 255]), rng.choice([0, 1, 255]),
                        rng.randbytes(rng.choice([0, 48, 60])),
                    ),
                    source,
                )
                new = seen.lines[before:]
                ctx.event("found", gw, p, new)
                ctx.expect(
                    any("ip=%s, port=%d" % (gw, p) in x for x in new),
                    "the gateway at %s:%d is reported as %r" % (gw, p, new),
                )
                ctx.see("found", gw, p)
            r.error_received(OSError("x"))
            ctx.expect(
                not wire.closed and not ear.closed and len(wire.sent) == 1 and not ear.sent,
                "after %d answers the endpoints have sent %r and %r, or are closed" % (len(found), wire.sent, ear.sent),
            )
            r.connection_lost(None)
            l.connection_lost(None)
    for i, rng in ctx.cases("program", ctx.more(25, 200)):
        program(ctx, rng)
    for i, rng in ctx.cases("helpers", ctx.more(25, 200)):
        addr = ".".join(str(rng.randrange(1, 255)) for _ in range(4))
        port = rng.randrange(1, 0x10000)
        with vloop.using(Endpoints()) as loop, fake_sockets() as log:
            a = call(loop.run_until_complete, mod.send_discovery_request(addr, port))
            b = call(loop.run_until_complete, mod.listen_discovery_responses(addr, port))
            ctx.event("helpers", addr, port, log)
            ctx.expect(a.ok and b.ok, "opening the endpoints for %s:%d: %s, %s" % (addr, port, brief(a), brief(b)))
            ends = {n: (kw, w, p) for n, kw, w, p in loop.ends}
            ctx.expect(sorted(ends) == ["Listen", "Request"], "the helpers open %r" % sorted(ends))
            ctx.expect(
                a.value == ends["Request"][1:] and b.value == ends["Listen"][1:],
                "the helpers return %s, %s" % (brief(a), brief(b)),
            )
            ctx.expect(
                [(d, to) for _, d, to in ends["Request"][1].sent]
                == [(spec.ip(spec.SEARCH_REQ, spec.hpai(addr, port)), ("224.0.23.12", 3671))],
                "the helper for %s:%d sends %r" % (addr, port, ends["Request"][1].sent),
            )
            hops = [x for x in log if x[0] == "setsockopt" and x[2] in (socket.IP_MULTICAST_TTL, socket.IP_MULTICAST_LOOP)
                    and x[1] == socket.IPPROTO_IP and x[3] in (0, False, b"\0", bytes(4))]
            ctx.expect(not hops, "the search does not get to every gateway: %r" % hops)
            ctx.expect(
                ends["Listen"][0].get("local_addr") == (addr, port),
                "the helper for %s:%d listens at %r" % (addr, port, ends["Listen"][0]),
            )
    ctx.floor(events__request=300, events__found=500, events__program=20, events__helpers=20)


class FakeSocket:
    def __init__(self, log):
        self.log = log

    def __getattr__(self, name):
        def method(*a, **kw):
            self.log.append((name,) + a)

        return method


class Endpoints(vloop.Loop):
    """A loop whose datagram endpoints only record, and whose user ends what waits for ever."""

    def __init__(self):
        super().__init__()
        self.ends = []

    async def create_datagram_endpoint(self, factory, **kw):
        w = Wire(self)
        p = factory()
        self.ends.append((type(p).__name__, kw, w, p))
        self.opened(w, p)
        return w, p

    def opened(self, w, p):
        p.connection_made(w)

    def run_forever(self):
        try:
            super().run_forever()
        except vloop.Idle:
            raise KeyboardInterrupt()


class fake_sockets:
    """The sockets made meanwhile only record what is asked of them."""

    def __enter__(self):
        self.real, log = socket.socket, []

        class S(socket.socket):
            def __new__(cls, *a, **kw):
                log.append(("socket",) + a)
                return FakeSocket(log)

        socket.socket = S
        return log

    def __exit__(self, *exc):
        socket.socket = self.real


def run_program(name, args, loop):
    """python -m NAME ARGS on this loop: how it ended, and what it printed."""
    out = []

    class Quiet:
        def write(self, x):
            out.append(x)

        def flush(self):
            pass

    root = logging.getLogger()
    argv, stdout, level, handlers = sys.argv, sys.stdout, root.level, list(root.handlers)
    saved = sys.modules.pop(name, None)
    real_close = loop.close
    sys.argv, sys.stdout = [name] + args, Quiet()
    try:
        asyncio.set_event_loop(loop)
        o = call(runpy.run_module, name, run_name="__main__")
        return o, "".join(out)
    finally:
        sys.argv, sys.stdout = argv, stdout
        root.setLevel(level)
        root.handlers[:] = handlers
        if saved is not None:
            sys.modules[name] = saved
        asyncio.set_event_loop(None)
        if not loop.is_closed():
            real_close()


def program(ctx, rng):
    """python -m knx_stack.client.knxnet_ip_discovery ADDRESS, network stubbed."""
    addr = ".".join(str(rng.randrange(1, 255)) for _ in range(4))
    gateways = [(".".join(str(rng.randrange(256)) for _ in range(4)), rng.randrange(1, 0x10000)) for _ in range(rng.choice([0, 1, 5]))]

    class L(Endpoints):
        def opened(self, w, p):
            super().opened(w, p)
            if type(p).__name__ == "Listen":
                for g in gateways:
                    self.call_later(rng.random() * 5, p.datagram_received, spec.search_res(*g, 0x1101), rng.choice([g, (g[0], 3671), ("10.1.2.3", 3671)]))

    loop = L()
    with fake_sockets() as log:
        o, text = run_program("knx_stack.client.knxnet_ip_discovery", [addr], loop)
    ends, wires = loop.ends, [w for _, _, w, _ in loop.ends]
    ctx.expect(
        all("ip=%s, port=%d" % g in text for g in gateways),
        "the gateways %r answer, and the program prints %s" % (gateways, brief(text, 2000)),
    )
    ctx.event("program", addr, [(n, kw.get("local_addr")) for n, kw, _, _ in ends], log)
    ctx.expect(o.ok, "the program for %s ends with %s" % (addr, brief(o)))
    listens = [kw.get("local_addr") for n, kw, _, _ in ends if n == "Listen"]
    ctx.expect(
        [a for a in listens if a and a[0] == addr] == listens and len(listens) == 1,
        "the program for %s listens at %r" % (addr, listens),
    )
    port = listens[0][1]
    sent = [(d, a) for w in wires for _, d, a in w.sent]
    ctx.expect(
        sent == [(spec.ip(spec.SEARCH_REQ, spec.hpai(addr, port)), ("224.0.23.12", 3671))],
        "the program for %s, listening at port %d, sends %r" % (addr, port, sent),
    )
    group = socket.inet_aton("224.0.23.12")
    joins = [x for x in log if x[0] == "setsockopt" and x[2] == socket.IP_ADD_MEMBERSHIP]
    ctx.expect(
        any(x[3][:4] == group for x in joins), "the program joins %r" % (joins,)
    )
    ctx.expect(all(w.closed for w in wires), "the program leaves a transport open")
    ctx.see("program", addr)


# --------------------------------------------------------------------------- #
def S07(ctx):
    """Independent stacks do not disturb each other."""
    ctx.limit(400)
    ctx.rule = (
        "stacks with different tables, media and sessions, each fed its own traffic: "
        "interleaved call by call in one thread, then concurrently in threads switched "
        "every few instructions with yields injected by a tracer; the outcome of every "
        "call is compared with that of the same traffic alone; non-trivial: distinct "
        "interleavings"
    )
    for i, rng in ctx.cases("interleaved", ctx.more(120, 2500)):
        t = kit.random_tables(rng) if rng.random() < 0.35 else None  # of them all
        runs = [Run(ctx, ctx.rng("run", i, j), t=t) for j in range(rng.choice([2, 3, 5]))]
        alone = [r.play() for r in runs]
        share = runs[0].stack() if t else None
        ctx.count("stacks sharing tables", len(runs) if t else 0)
        gens = [(j, r.steps(share)) for j, r in enumerate(runs)]
        together = [[] for _ in runs]
        order = []
        while gens:
            g = rng.choice(gens)
            try:
                together[g[0]].append(next(g[1]))
                order.append(g[0])
            except StopIteration:
                gens.remove(g)
        compare(ctx, alone, together, "interleaved")
        ctx.event("interleaving", order[:200])
        ctx.see("interleaving", tuple(order))
    old = sys.getswitchinterval()
    try:
        sys.setswitchinterval(1e-6)
        for i, rng in ctx.cases("threads", ctx.more(14, 300)):
            n = rng.choice([2, 4, 8])
            t = kit.random_tables(rng) if rng.random() < 0.35 else None
            runs = [Run(ctx, ctx.rng("trun", i, j), 20, t) for j in range(n)]
            alone = [r.play() for r in runs]
            share = runs[0].stack() if t else None
            ctx.count("stacks sharing tables", len(runs) if t else 0)
            together = [None] * n
            order = []
            gate = threading.Barrier(n)

            def work(j):
                jr = ctx.rng("yield", i, j)

                def trace(frame, event, arg):
                    if event == "line" and jr.random() < 0.03:
                        order.append(j)
                        time.sleep(0)
                    return trace

                gate.wait()
                sys.settrace(trace)
                try:
                    together[j] = runs[j].play(share)
                finally:
                    sys.settrace(None)

            ts = [threading.Thread(target=work, args=(j,)) for j in range(n)]
            for th in ts:
                th.start()
            for th in ts:
                th.join()
            ctx.event("threads", n, len(order))
            ctx.count("injected yields", len(order))
            ctx.see("threads", tuple(order))
            compare(ctx, alone, together, "threads")
    finally:
        sys.setswitchinterval(old)
    ctx.floor(**{"events/interleaving": 100, "events/threads": 10, "stacks sharing tables": 60})


def compare(ctx, alone, together, how):
    for j, (a, b) in enumerate(zip(alone, together)):
        ctx.expect(b is not None, "%s: stack %d did not finish" % (how, j))
        ctx.expect(len(a) == len(b), "%s: stack %d gave %d outcomes of %d" % (how, j, len(b), len(a)))
        for n, (x, y) in enumerate(zip(a, b)):
            ctx.count("calls compared")
            ctx.expect(
                x == y, "%s: call %d of stack %d gives %s, alone it gives %s" % (how, n, j, brief(y), brief(x))
            )


class Run:
    """A stack and a fixed sequence of calls; play() makes a new stack each time."""

    def __init__(self, ctx, rng, n=None, t=None):
        self.t = t or kit.random_tables(rng)
        self.medium = rng.choice(["usb", "ip"])
        self.bare = rng.random() < 0.5
        self.fresh = rng.random() < 0.3
        self.calls = []
        asaps = [a for a in self.t.assoc if a]
        for _ in range(n or rng.choice([5, 15])):
            r = rng.random()
            if self.medium == "ip" and rng.random() < 0.3:
                # the session goes on, is renewed, or closed
                kind = rng.choice(["ack", "ack", "ack", "raw", "raw", "again", "state", "close", "connect"])
                self.calls.append((kind, {
                    "raw": lambda: rng.choice([
                        spec.connect_res(rng.randrange(256), 0, "10.0.0.%d" % rng.randrange(256), 3671, rng.randrange(0x10000)),
                        spec.disconnect_res(rng.randrange(256), 0),
                        spec.state_res(rng.randrange(256), 0),
                        spec.refuse_res(0x24, rng.randrange(256)),
                    ]),
                }.get(kind, lambda: rng.randrange(1, 0x10000))()))
            elif r < 0.1:
                self.calls.append(("prop", kit.asap(0), tuple(rng.getrandbits(n) for n in (8, 8, 4, 12)), rng.randbytes(3)))
            elif r < 0.5:
                self.calls.append(("in", group_case(ctx, rng, self.t, rng.choice(["ind", "con"]))[0]))
            elif r < 0.6:
                self.calls.append(("in", kit.property_frame(rng, self.t, "con", "response")))
            elif r < 0.9:
                a = rng.choice(asaps)
                name = self.t.types.get(a)
                if name:
                    self.calls.append(("write", a, name, kit.random_word(rng, spec.TYPES[name])))
                else:
                    self.calls.append(("read", a))
            elif t is None:
                self.calls.append(("table", rng.choice(asaps), rng.randrange(1, 0x10000)))

    def stack(self, share=None):
        return kit.Stack(self.t, self.medium, bare=self.bare, fresh=self.fresh, share=share)

    def steps(self, share=None):
        s = self.stack(share)
        for c in self.calls:
            yield self.step(s, c)
            if self.medium == "ip":
                yield (
                    s.state.communication_channel_id,
                    s.state.sequence_counter_local,
                    s.state.sequence_counter_remote,
                )

    def step(self, s, c):
        core = NET.core
        if c[0] == "in":
            return call(s.receive, c[1]).value
        elif c[0] == "raw":
            return repr(s.decode(c[1]).value)
        elif c[0] == "ack":
            st = s.state
            return repr(s.decode(spec.tunnel_ack(st.communication_channel_id, st.sequence_counter_local)).value)
        elif c[0] == "again":
            st = s.state
            q = (st.sequence_counter_remote - 1) % 256
            return repr(s.decode(spec.tunnel_req(st.communication_channel_id, q, b"\x29\x00\xbc\xe0\x11\x22\x09\x01\x01\x00\x81")).value)
        elif c[0] == "state":
            return str(s.encode(core.connectionstate.req.Msg("10.0.0.1", c[1])).value)
        elif c[0] == "close":
            return str(s.encode(core.disconnect.req.Msg("10.0.0.1", c[1])).value)
        elif c[0] == "connect":
            return str(s.encode(core.connect.req.Msg("10.0.0.1", c[1], "10.0.0.2", c[1] ^ 1)).value)
        elif c[0] == "prop":
            return str(s.encode(kit.prop_write_req(*c[1:])).value)
        elif c[0] == "write":
            return str(s.encode(kit.write_req(kit.asap(c[1]), kit.dpt(c[2], c[3]))).value)
        elif c[0] == "read":
            return str(s.encode(kit.read_req(kit.asap(c[1]))).value)
        else:
            call(s.assoc.associate, kit.asap(c[1]), [kit.G(c[2])])
            return [a.free_style for a in s.at.addresses]

    def play(self, share=None):
        return list(self.steps(share))
