"""What is emitted, octet by octet."""

import knx_stack as k

from . import age, kit, spec

NET = k.knxnet_ip


def body_of(stack, frame):
    """The cEMI frame inside an emitted message, its envelope being checked."""
    if stack.medium == "usb":
        protocol, emi, manufacturer, body = spec.parse_usb(frame)
        if (protocol, emi, manufacturer) != (1, 3, 0):
            raise spec.Bad("not a cEMI tunnel report: %s" % frame.hex())
        return body
    if stack.medium == "ip":
        return spec.parse_tunnel(frame)[3]
    return frame


# --------------------------------------------------------------------------- #
def E01(ctx):
    """Group requests."""
    ctx.rule = (
        "random configurations (several addresses per ASAP, shared ones, every datapoint "
        "type) on the three media; the emitted frame of a read request, a write request "
        "and a write indication is compared octet by octet with the reference frame; "
        "requests which can not be sent must be refused and leave no trace; non-trivial: "
        "distinct (medium, service, type, word)"
    )
    for i, rng in ctx.cases("config", ctx.more(900, 15000)):
        t = kit.random_tables(rng)
        medium = rng.choice(["usb", "ip", "tp"])
        s = kit.Stack(t, medium, names=rng.random() < 0.5)
        if medium == "ip":
            s.state.communication_channel_id = rng.randrange(256)
            s.state.sequence_counter_local = rng.randrange(256)
        asaps = [a for a in t.assoc if a]
        bare = rng.choice([61, 62])  # an ASAP without any address
        if rng.random() < 0.3:
            s.assoc.associate(kit.asap(bare), [])
        t.types[bare] = rng.choice(sorted(spec.TYPES))
        s.got.associate(kit.asap(bare), kit.dpt_class(t.types[bare]))
        for _ in range(rng.choice([3, 8, 20])):
            if rng.random() < 0.4:
                ctx.event("heard", kit.live(rng, s).hex())
            a = rng.choice(asaps + [bare])
            kind = rng.choice(["read req", "write req", "write req", "write ind"])
            to = t.sending_address(a)
            name = t.types.get(a)
            d = spec.TYPES[name] if name else None
            word = kit.random_word(rng, d) if d else 0
            if kind == "read req":
                m = kit.read_req(kit.asap(a))
                want = to and spec.cemi(spec.REQ, to, spec.tpdu_group(spec.READ, None, 0))
            else:
                value = kit.dpt(name or "DPT_Switch", word)
                m = (kit.write_req if kind == "write req" else kit.write_ind)(
                    kit.asap(a), value
                )
                code = spec.REQ if kind == "write req" else spec.IND
                want = (
                    spec.cemi(code, to, spec.tpdu_group(spec.WRITE, d, word))
                    if to and d
                    else None
                )
            o = s.encode(m)
            ctx.event("request", medium, kind, a, name, word)
            if not want:
                ctx.expect(
                    not o.ok,
                    "%s of ASAP %d, address %r, type %r: %r" % (kind, a, to, name, o),
                )
                ctx.event("refused", a)
                continue
            ctx.expect(o.ok, "%s of ASAP %d (%s) on %s: %r" % (kind, a, name, medium, o))
            got = kit.to_bytes(o.value)
            body = body_of(s, got)
            ctx.event("sent", got.hex())
            ctx.expect(
                body == want,
                "%s of ASAP %d (%s %x, address %04x) on %s carries %s, not %s"
                % (kind, a, name, word, to, medium, body.hex(), want.hex()),
            )
            if kind != "read req":
                ctx.expect(
                    value.value == word, "sending changed the value %x to %x" % (word, value.value)
                )
            ctx.see("sent", medium, kind, name, word)
    # a big installation
    for i, rng in ctx.cases("large", ctx.more(10, 150)):
        t = kit.large_tables(rng)
        s = kit.Stack(t, "tp")
        for a in rng.sample([a for a in t.assoc if a], min(40, len(t.assoc) - 1)):
            to, name = t.sending_address(a), t.types.get(a)
            d = spec.TYPES[name or "DPT_Switch"]
            w = kit.random_word(rng, d)
            m, f = rng.choice([
                (kit.read_req(kit.asap(a)), spec.tpdu_group(spec.READ, None, 0)),
                (kit.write_req(kit.asap(a), kit.dpt(d.name, w)), spec.tpdu_group(spec.WRITE, d, w)),
            ])
            if not name and f != spec.tpdu_group(spec.READ, None, 0):
                continue
            o = s.encode(m)
            ctx.event("sent", a, o)
            ctx.expect(
                o.ok and kit.to_bytes(o.value) == spec.cemi(spec.REQ, to, f),
                "ASAP %d of %d (address %04x of %d) sends %r"
                % (a, len(t.assoc), to, len(t.addresses()), o),
            )
            ctx.see("large", len(t.assoc), len(t.addresses()), a)
    # thousands of addresses
    for i, rng in ctx.cases("crowded", ctx.more(1, 4)):
        s = kit.crowded_stack(rng, "tp")
        for a, name in sorted(s.t.types.items()):
            d, to = spec.TYPES[name], s.t.sending_address(a)
            w = kit.random_word(rng, d)
            o = s.encode(kit.write_req(kit.asap(a), kit.dpt(name, w)))
            ctx.event("sent", a, o)
            ctx.expect(
                o.ok and kit.to_bytes(o.value) == spec.cemi(spec.REQ, to, spec.tpdu_group(spec.WRITE, d, w)),
                "ASAP %d (%s %x, address %04x among %d) sends %r" % (a, name, w, to, len(s.t.preloaded), o),
            )
            ctx.see("crowded", a, to)
    # every word of the short types, every type
    for name in sorted(spec.TYPES):
        d = spec.TYPES[name]
        rng = ctx.rng("all", name)
        t = spec.Tables(0x1001, [(1, 0x0901)], [(1, name)])
        s = kit.Stack(t, "tp")
        ws = range(d.mask + 1) if d.bits <= 8 else [rng.getrandbits(d.bits) for _ in range(400)]
        for w in ctx.sweep("words/" + name, ws):
            got = s.encoded(kit.write_req(kit.asap(1), kit.dpt(name, w)))
            want = spec.cemi(spec.REQ, 0x0901, spec.tpdu_group(spec.WRITE, d, w))
            ctx.event("sent", got.hex())
            ctx.expect(got == want, "%s %x is sent as %s, not %s" % (name, w, got.hex(), want.hex()))
            ctx.see("word", name, w)
        # a value holding more than the field of its type keeps out of the service
        if d.octets == 0:
            for w in ctx.sweep("wide/" + name, range(d.mask + 1, 0x100)):
                o = s.encode(kit.write_req(kit.asap(1), kit.dpt(name, w)))
                ctx.event("wide", name, w, o)
                if not o.ok:
                    continue
                got = kit.to_bytes(o.value)
                want = spec.cemi(spec.REQ, 0x0901, spec.tpdu_group(spec.WRITE, d, w & d.mask))
                ctx.expect(
                    got[:-1] == want[:-1]
                    and got[-1] & 0xC0 == want[-1] & 0xC0
                    and got[-1] & d.mask == want[-1] & d.mask,
                    "%s holding %x is sent as %s" % (name, w, got.hex()),
                )
    # a type of the user's own, of any of the sizes
    for bits, octets in ctx.sweep("own", [(n, 0) for n in range(1, 7)] + [(8, 1), (16, 2), (32, 4)]):
        rng = ctx.rng("own", bits)
        d = spec.Type("OwnType", octets, bits)
        cls = kit.own_type(d)
        s = kit.Stack(spec.Tables(0x1001, [(1, 0x0901)], []), "tp")
        s.got.associate(kit.asap(1), cls)
        for w in range(d.mask + 1) if bits < 8 else {kit.random_word(rng, d) for _ in range(60)}:
            value = cls()
            value.value = w
            for m, code in ((kit.write_req, spec.REQ), (kit.write_ind, spec.IND)):
                o = s.encode(m(kit.asap(1), value))
                want = spec.cemi(code, 0x0901, spec.tpdu_group(spec.WRITE, d, w))
                ctx.event("sent", bits, w, o)
                ctx.expect(
                    o.ok and kit.to_bytes(o.value) == want,
                    "%x of an own type of %d bits is sent as %r, not %s" % (w, bits, o, want.hex()),
                )
            ctx.see("own", bits, w)
    # every word of two octets
    names = [n for n in sorted(spec.TYPES) if spec.TYPES[n].octets == 2]
    for name in names if ctx.thorough else [ctx.rng("which").choice(names)]:
        d = spec.TYPES[name]
        s = kit.Stack(spec.Tables(0x1001, [(1, 0x0901)], [(1, name)]), "tp")
        value = kit.dpt(name, 0)
        m = kit.write_req(kit.asap(1), value)
        for w in ctx.sweep("all/" + name, range(0x10000)):
            value.value = w
            got = str(k.encode_msg(s.state, m))
            ctx.expect(
                got.upper().endswith("0080%04X" % w), "%s %x is sent as %s" % (name, w, got)
            )
        ctx.event("sent", name, "all")
        ctx.exhaustive.append("every word of %s" % name)
    # every destination
    t = spec.Tables(0x1001, [(1, 1)], [(1, "DPT_Switch")], max_size=2)
    s = kit.Stack(t, "tp")
    now = 1
    for a in ctx.sweep("destination", range(2, 0x10000, ctx.scale(7, 1))):
        s.assoc.disassociate(kit.asap(1), [kit.G(now)])
        s.assoc.associate(kit.asap(1), [kit.G(a)])
        now = a
        got = s.encoded(kit.read_req(kit.asap(1)))
        ctx.event("sent", got.hex())
        ctx.expect(
            got == spec.cemi(spec.REQ, a, spec.tpdu_group(spec.READ, None, 0)),
            "reading address %04x sends %s" % (a, got.hex()),
        )
        ctx.see("destination", a)
    age.requested(ctx, "tp", a_message)
    ctx.floor(events__sent=5000, events__refused=100)


# --------------------------------------------------------------------------- #
def some_message(rng, t, most=30):
    """Any message encode_msg can put on the bus, and its cEMI length class."""
    asaps = [a for a in t.assoc if a and a in t.types]
    kind = rng.choice(["read", "write", "write", "ind", "prop read", "prop write"])
    if kind == "prop read":
        f = (rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(4), rng.getrandbits(12))
        return kind, kit.prop_read_req(kit.asap(0), f)
    if kind == "prop write" or not asaps:
        f = (rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(4), rng.getrandbits(12))
        return kind, kit.prop_write_req(kit.asap(0), f, kit.property_data(rng, most))
    a = rng.choice(asaps)
    if kind == "read":
        return kind, kit.read_req(kit.asap(a))
    d = spec.TYPES[t.types[a]]
    make = kit.write_req if kind == "write" else kit.write_ind
    return kind + " " + d.name, make(kit.asap(a), kit.dpt(d.name, kit.random_word(rng, d)))


class Sent:
    """Messages which were encoded and are still to be written by their user."""

    def __init__(self, ctx):
        self.ctx, self.kept = ctx, []

    def keep(self, stack, m):
        out = k.encode_msg(stack.state, m)
        self.kept.append((out, str(out)))
        return bytes.fromhex(str(out))

    def unchanged(self):
        for out, was in self.kept:
            self.ctx.expect(str(out) == was, "the frame %s became %s" % (was, out))


def a_message(rng, t):
    """Any message, and its frame as a stack which has just been made has it."""
    m = some_message(rng, t)[1]
    return m, kit.Stack(t, "tp").encoded(m)


def a_property(rng, t, most=30):
    h = (rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(4), rng.getrandbits(12))
    if rng.random() < 0.5:
        m, tpdu = kit.prop_read_req(kit.asap(0), h), spec.tpdu_property(spec.PROP_READ, *h)
    else:
        x = kit.property_data(rng, most)
        m, tpdu = kit.prop_write_req(kit.asap(0), h, x), spec.tpdu_property(spec.PROP_WRITE, *h, x)
    return m, spec.cemi(spec.REQ, t.ia, tpdu, group=False)


def E02(ctx):
    """USB envelope."""
    ctx.rule = (
        "every kind of message, encoded by a USB stack and by a twin stack without "
        "envelope; an independent parser unwraps the report and checks every length; "
        "non-trivial: distinct (kind, frame length, content)"
    )
    for i, rng in ctx.cases("message", ctx.more(2500, 40000)):
        t = kit.random_tables(rng)
        usb, bare = kit.Stack(t, "usb"), kit.Stack(t, "tp")
        sent = Sent(ctx)
        for _ in range(4):
            if rng.random() < 0.3:
                ctx.event("heard", kit.live(rng, usb).hex())
            kind, m = some_message(rng, t, 38)
            got, inner = sent.keep(usb, m), sent.keep(bare, m)
            ctx.event("report", kind, got.hex())
            protocol, emi, manufacturer, body = spec.parse_usb(got)
            ctx.expect(
                (protocol, emi, manufacturer) == (1, 3, 0),
                "%s goes out as protocol %d, EMI %d, manufacturer %d"
                % (kind, protocol, emi, manufacturer),
            )
            ctx.expect(
                got[1] == 0x13, "%s goes out with packet info %02x" % (kind, got[1])
            )
            ctx.expect(
                body == inner, "%s: report %s does not hold %s" % (kind, got.hex(), inner.hex())
            )
            n = body[2 + body[1] + 6]
            ctx.expect(
                n == len(body) - 10, "%s: NPDU length %d in %s" % (kind, n, body.hex())
            )
            ctx.see("report", kind, len(got), got)
        sent.unchanged()
    # what does not fit in one report of 64 octets
    t = spec.Tables(0x1001, [(1, 0x0901)], [(1, "DPT_Switch")])
    for n in ctx.sweep("length", range(0, 320)):
        o = kit.Stack(t, "usb").encode(kit.prop_write_req(kit.asap(0), (0, 1, 1, 1), bytes([n & 255]) * n))
        ctx.event("length", n, o.ok)
        ctx.expect(o.ok == (n <= 38), "a property write of %d octets is sent as %r" % (n, o))
        if o.ok:
            ctx.expect(
                spec.parse_usb(kit.to_bytes(o.value))[3][-n or None:] == bytes([n & 255]) * n or not n,
                "a property write of %d octets is sent as %r" % (n, o),
            )
    ctx.exhaustive.append("every length of a property write from 0 to 319")
    age.requested(ctx, "usb", a_message)
    ctx.floor(events__report=5000)


def E03(ctx):
    """KNXnet/IP tunnelling envelope."""
    ctx.rule = (
        "every kind of message on every channel and counter, encoded by a KNXnet/IP stack "
        "and by a twin stack without envelope; an independent parser unwraps the frame "
        "and checks every length; acknowledges for every counter and status; "
        "non-trivial: distinct (kind, channel, counter)"
    )
    for i, rng in ctx.cases("message", ctx.more(2500, 40000)):
        t = kit.random_tables(rng)
        ip, bare = kit.Stack(t, "ip"), kit.Stack(t, "tp")
        sent = Sent(ctx)
        for _ in range(4):
            if rng.random() < 0.3:
                ctx.event("heard", kit.live(rng, ip).hex())
            kind, m = some_message(rng, t, 249)
            ch, seq, far = rng.randrange(256), rng.randrange(256), rng.randrange(256)
            ip.state.communication_channel_id = ch
            ip.state.sequence_counter_local = seq
            ip.state.sequence_counter_remote = far
            got, inner = sent.keep(ip, m), sent.keep(bare, m)
            ctx.event("frame", kind, ch, seq, got.hex())
            head = spec.parse_tunnel(got)
            ctx.expect(
                head == (ch, seq, 0, inner),
                "%s on channel %d counter %d is framed as %s, whose content should be %s"
                % (kind, ch, seq, got.hex(), inner.hex()),
            )
            ctx.see("frame", kind, ch, seq)
        sent.unchanged()
    # acknowledges: the accepted counter, or the one of a retransmission
    for n in ctx.sweep("ack", range(256)):
        for again in (False, True):
            for ch in (0, 1, 127, 255, (n * 7) & 255):
                t = spec.Tables(0x1001, [(1, 1)], [(1, "DPT_Switch")])
                s = kit.Stack(t, "ip")
                s.state.communication_channel_id = ch
                s.state.sequence_counter_remote = n + 1 if again else n
                s.state.sequence_counter_local = (n * 3) & 255
                m = NET.tunneling.ack.Msg(n, NET.ErrorCodes.E_NO_ERROR)
                got = s.encoded(m)
                ctx.event("ack", n, ch, got.hex())
                ctx.expect(
                    got == spec.tunnel_ack(ch, n, 0),
                    "the acknowledge of %d on channel %d is %s" % (n, ch, got.hex()),
                )
                ctx.expect(
                    s.state.sequence_counter_local == (n * 3) & 255,
                    "an acknowledge moved the sending counter",
                )
                ctx.see("ack", n, ch, again)
    ctx.exhaustive.append("acknowledges of all 256 counters, first time and repeated")
    age.requested(ctx, "ip", a_message)
    ctx.floor(events__frame=5000, events__ack=2000)


# --------------------------------------------------------------------------- #
def E04(ctx):
    """Property requests."""
    ctx.rule = (
        "property read and write requests with random and boundary header fields and 1 to "
        "30 octets of data, from any ASAP, on the three media, interleaved with group "
        "requests; compared octet by octet; non-trivial: distinct (service, header)"
    )
    edges = [0, 1, 0x7F, 0x80, 0xFF]
    for i, rng in ctx.cases("request", ctx.more(2500, 40000)):
        t = kit.random_tables(rng)
        s = kit.Stack(t, rng.choice(["usb", "ip", "tp"]))
        if s.medium == "ip":
            s.state.communication_channel_id = rng.randrange(256)
            s.state.sequence_counter_local = rng.randrange(256)
        for _ in range(4):
            if rng.random() < 0.3:  # something else in between
                a = rng.choice([a for a in t.assoc if a])
                s.encoded(kit.read_req(kit.asap(a)))
                ctx.event("between", a)
            if rng.random() < 0.3:
                ctx.event("heard", kit.live(rng, s).hex())
            f = (
                rng.choice(edges + [rng.getrandbits(8)] * 4),
                rng.choice(edges + [rng.getrandbits(8)] * 4),
                rng.choice([0, 1, 15, rng.getrandbits(4)]),
                rng.choice([0, 1, 0xFF, 0x100, 0xFFF, rng.getrandbits(12)]),
            )
            who = kit.asap(rng.choice([0, 0, 1, rng.choice(list(t.assoc)), 50]))
            if rng.random() < 0.1:
                who = 0  # as in the documentation
            if rng.random() < 0.5:
                kind, data, apci = "read", b"", spec.PROP_READ
                m = kit.prop_read_req(who, f)
            else:
                kind, apci = "write", spec.PROP_WRITE
                data = kit.property_data(rng)
                if rng.random() < 0.3:
                    data = rng.randbytes(rng.choice([rng.randrange(60), rng.randrange(250), 247, 248, 249, 250, 251, 252, 255, 256, 263, 300, 600]))
                m = kit.prop_write_req(who, f, data)
            o = s.encode(m)
            npdu = 5 + len(data)
            size = npdu + 10 + {"usb": 11, "ip": 10, "tp": 0}[s.medium]
            if npdu > 255 or s.medium == "usb" and size > 64:
                ctx.event("overlong", len(data), o)
                ctx.expect(
                    not o.ok, "a property write of %d octets on %s is sent as %r" % (len(data), s.medium, o)
                )
                continue
            if npdu == 255:  # the escape code: sent, or refused
                if not o.ok:
                    continue
            ctx.expect(o.ok, "property %s %r of %d octets on %s: %r" % (kind, f, len(data), s.medium, o))
            got = kit.to_bytes(o.value)
            ctx.event("sent", kind, f, data, got.hex())
            want = spec.cemi(
                spec.REQ, t.ia, spec.tpdu_property(apci, *f, data), group=False
            )
            body = body_of(s, got)
            ctx.expect(
                body == want,
                "property %s %r %s on %s carries %s, not %s"
                % (kind, f, data.hex(), s.medium, body.hex(), want.hex()),
            )
            ctx.see("sent", kind, f, len(data))
    # every length of data
    t = spec.Tables(0x1001, [(1, 0x0901)], [(1, "DPT_Switch")])
    for n in ctx.sweep("length", range(0, 320)):
        for medium in ("usb", "ip", "tp"):
            s = kit.Stack(t, medium)
            data = bytes((n + 7 * i) & 255 for i in range(n))
            o = s.encode(kit.prop_write_req(kit.asap(0), (0, 1, 1, 1), data))
            if n + 5 > 255 or medium == "usb" and n + 26 > 64:
                ctx.expect(not o.ok, "a property write of %d octets on %s is sent as %r" % (n, medium, o))
                ctx.event("overlong", n)
            elif n + 5 < 255:
                ctx.expect(o.ok, "a property write of %d octets on %s: %r" % (n, medium, o))
                got = body_of(s, kit.to_bytes(o.value))
                want = spec.cemi(
                    spec.REQ, t.ia, spec.tpdu_property(spec.PROP_WRITE, 0, 1, 1, 1, data), group=False
                )
                ctx.expect(
                    got == want,
                    "a property write of %d octets on %s carries %s" % (n, medium, got.hex()),
                )
                ctx.event("sent", n, medium)
            ctx.see("length", n, medium, o.ok)
    ctx.exhaustive.append("every length of data from 0 to 319 on the three media")
    age.requested(ctx, "usb", a_property)
    ctx.floor(events__sent=5000, events__overlong=100)


# --------------------------------------------------------------------------- #
def E05(ctx):
    """Connection management requests."""
    ctx.rule = (
        "search, connect, connection state and disconnect requests for random and "
        "boundary addresses, ports and channels, compared octet by octet with the "
        "reference frames; non-trivial: distinct (request, endpoint, channel)"
    )

    def endpoint(rng):
        addr = ".".join(
            str(rng.choice([0, 1, 10, 100, 127, 128, 192, 255, rng.randrange(256)]))
            for _ in range(4)
        )
        return addr, rng.choice([0, 1, 0xFF, 0x100, 3671, 0xFFFF, rng.randrange(0x10000)])

    for i, rng in ctx.cases("request", ctx.more(4000, 80000)):
        t = kit.random_tables(rng, n_asaps=1)
        s = kit.Stack(t, "ip")
        for _ in range(3):
            if rng.random() < 0.3:
                ctx.event("heard", kit.live(rng, s).hex())
            ch = rng.randrange(256)
            s.state.communication_channel_id = ch
            s.state.sequence_counter_local = rng.randrange(256)
            s.state.sequence_counter_remote = rng.randrange(256)
            a, b = endpoint(rng), endpoint(rng)
            kind = rng.choice(["search", "connect", "state", "disconnect"])
            if kind == "search":
                m = NET.core.search.req.Msg(addr=a[0], port=a[1])
                want = spec.ip(spec.SEARCH_REQ, spec.hpai(*a))
            elif kind == "connect":
                m = NET.core.connect.req.Msg(
                    addr_control_endpoint=a[0],
                    port_control_endpoint=a[1],
                    addr_data_endpoint=b[0],
                    port_data_endpoint=b[1],
                )
                want = spec.ip(
                    spec.CONNECT_REQ, spec.hpai(*a) + spec.hpai(*b) + bytes([4, 4, 2, 0])
                )
            elif kind == "state":
                m = NET.core.connectionstate.req.Msg(
                    addr_control_endpoint=a[0], port_control_endpoint=a[1]
                )
                want = spec.ip(spec.STATE_REQ, bytes([ch, 0]) + spec.hpai(*a))
            else:
                m = NET.core.disconnect.req.Msg(
                    addr_control_endpoint=a[0], port_control_endpoint=a[1]
                )
                want = spec.ip(spec.DISCONNECT_REQ, bytes([ch, 0]) + spec.hpai(*a))
            before = (
                s.state.communication_channel_id,
                s.state.sequence_counter_local,
                s.state.sequence_counter_remote,
            )
            got = s.encoded(m)
            ctx.event("sent", kind, ch, a, b, got.hex())
            ctx.expect(
                got == want,
                "%s request %r %r on channel %d is %s, not %s"
                % (kind, a, b, ch, got.hex(), want.hex()),
            )
            ctx.expect(
                before
                == (
                    s.state.communication_channel_id,
                    s.state.sequence_counter_local,
                    s.state.sequence_counter_remote,
                ),
                "asking for a %s changed the session" % kind,
            )
            ctx.see("sent", kind, a, ch)
        bad = call_bad(rng)
        o = s.encode(NET.core.search.req.Msg(addr=bad, port=1))
        ctx.expect(not o.ok, "a search from %r is sent: %r" % (bad, o))
    ctx.floor(events__sent=5000)


def call_bad(rng):
    return rng.choice(["300.1.1.1", "no address", "1.2.3.4.5", ""])
