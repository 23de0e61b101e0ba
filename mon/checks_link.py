"""The link and transport layers by themselves: headers, control frames, the bus'
other traffic."""

import knx_stack as k
from knx_stack.encode.layer.transport import t_connect, t_disconnect

from . import kit, spec, vloop
from .checks_decode import OPS, group_case, judge
from .checks_encode import a_property, body_of
from .core import brief, call

LAYER = k.definition.layer
FAMILY = ["ind", "con"]


# --------------------------------------------------------------------------- #
def kind_of(ctrl2, dst, tpci):
    """What a TPDU is, from the address type, the destination and its first octet
    (the KNX transport layer's coding)."""
    control, numbered, seq, low = tpci >> 7, tpci >> 6 & 1, tpci >> 2 & 15, tpci & 3
    if ctrl2 & 0x80:
        if control or numbered:
            return None
        if seq == 0:
            return "T_Data_Group_PDU" if dst else "T_Data_Broadcast_PDU"
        return "T_Data_Tag_Group_PDU" if seq == 1 else None
    if not control:
        if numbered:
            return "T_Data_Connected_PDU"
        return "T_Data_Individual_PDU" if seq == 0 else None
    if numbered:
        return {2: "T_ACK_PDU", 3: "T_NACK_PDU"}.get(low)
    return {0: "T_Connect_PDU", 1: "T_Disconnect_PDU"}.get(low)


def header(f):
    """The fields of a link frame of 8 octets or more."""
    tpci, apci = f[7], f[8] if len(f) > 8 else 0
    dst = int.from_bytes(f[4:6], "big")
    return {
        "source": int.from_bytes(f[2:4], "big"),
        "destination": dst,
        "address_type": "group" if f[1] & 0x80 else "individual",
        "status": f[0] & 1,
        "connected": bool(tpci & 0x80),
        "tpci": tpci,
        "apci": (tpci & 3) << 8 | apci,
        "apci_value": apci,
        "data": apci & 0x3F,
        "nsdu": kind_of(f[1], dst, tpci),
    }


def fields(h):
    """What the code says of a header."""
    return {
        "source": int(h.source),
        "destination": int(h.destination),
        "address_type": h.address_type.name,
        "status": int(h.status),
        "connected": h.connected,
        "tpci": int(h.tpci),
        "apci": int(h.apci),
        "apci_value": int(h.apci_value),
        "data": int(h.data),
        "nsdu": h.nsdu.name if h.nsdu is not None else None,
    }


def differences(want, got):
    return {n: (got[n], want[n]) for n in want if got[n] != want[n]}


def any_frame(rng):
    """A link frame: any header, any first octets of TPDU."""
    f = bytearray(rng.randbytes(9 + rng.choice([0, 0, 1, 2, 4, 9, 14])))
    f[4:6] = rng.choice([b"\0\0", b"\0\1", b"\1\0", f[4:6], f[4:6]])
    if rng.random() < 0.6:  # few services, and their neighbours
        f[7] = rng.choice([0, 0, 3, 2, 4, 8, 0x40, 0x44, 0x7C, 0x80, 0x81, 0xC2, 0xC3, 0xC6])
    f[6] = len(f) - 8
    return bytes(f)


def R09(ctx):
    """The link header."""
    ctx.rule = (
        "every first octet of TPDU under both address types, and random link frames: each "
        "property of the header read from them against the octets, what is left of the "
        "message, and the header a stack has after decoding; then sequences of settings on "
        "one header, each of which may change its own bits only; non-trivial: distinct "
        "(address type, TPCI, APCI)"
    )

    def read(f, what):
        whole = kit.to_msg(f)
        h, rest = LAYER.L_Data.make_from(whole)
        ctx.event("header", f.hex())
        bad = differences(header(f), fields(h))
        ctx.expect(not bad, "%s: the header of %s reads %r (and not)" % (what, f.hex(), bad))
        ctx.expect(kit.to_bytes(whole) == f, "reading the header of %s leaves %r" % (f.hex(), whole))
        left = f[9:] or f[8:9]
        ctx.expect(
            kit.to_bytes(rest) == left,
            "after the header of %s comes %r, not %s" % (f.hex(), rest, left.hex()),
        )
        text = repr(h)
        for n, v in (("source", f[2:4]), ("destination", f[4:6])):
            v = int.from_bytes(v, "big")
            ctx.expect(
                "%s: %d (0x%04X)" % (n, v, v) in text, "the header of %s prints %s" % (f.hex(), text)
            )
        ctx.see("header", f[1] & 0x80, f[7], f[8:9])
        return h

    for tpci in ctx.sweep("tpci", range(256)):
        rng = ctx.rng("tpci", tpci)
        for ctrl2 in (0x00, 0x60, 0x80, 0xE0):
            for dst in (b"\0\0", b"\0\1", b"\1\0", rng.randbytes(2)):
                for tail in (bytes([rng.randrange(256)]), rng.randbytes(3)):
                    f = bytes([rng.randrange(256), ctrl2]) + rng.randbytes(2) + dst
                    read(f + bytes([len(tail), tpci]) + tail, "TPCI %02x" % tpci)
        if tpci & 0x80:  # a control frame is one octet of TPDU
            f = bytes([0xB0, 0x60]) + rng.randbytes(4) + bytes([0, tpci])
            read(f, "control %02x" % tpci)
    for i, rng in ctx.cases("any", ctx.more(4000, 60000)):
        read(any_frame(rng), "any")
    # the header a stack keeps is the one of the last frame
    for i, rng in ctx.cases("stack", ctx.more(250, 4000)):
        t = kit.random_tables(rng)
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        for _ in range(6):
            f = group_case(ctx, rng, t, rng.choice(FAMILY))[0]
            if rng.random() < 0.5:
                f = kit.property_frame(rng, t, rng.choice(FAMILY), rng.choice(OPS), rng.random() < 0.7)
            judge(ctx, s, f, "decoding")
            bad = differences(header(f[2 + f[1]:]), fields(s.state.ldata))
            ctx.expect(not bad, "after %s the stack's header reads %r (and not)" % (f.hex(), bad))
    kinds = {
        "T_Data_Broadcast_PDU": (0xE0, 0, 0x00),
        "T_Data_Group_PDU": (0xE0, 1, 0x00),
        "T_Data_Tag_Group_PDU": (0xE0, 1, 0x04),
        "T_Data_Individual_PDU": (0x60, 1, 0x00),
        "T_Data_Connected_PDU": (0x60, 1, 0x40),
        "T_Connect_PDU": (0x60, 1, 0x80),
        "T_Disconnect_PDU": (0x60, 1, 0x81),
        "T_ACK_PDU": (0x60, 1, 0xC2),
        "T_NACK_PDU": (0x60, 1, 0xC3),
    }
    for i, rng in ctx.cases("settings", ctx.more(1500, 20000)):
        if rng.random() < 0.5:
            f = any_frame(rng)[:9]
        else:  # as it is made
            f = None
        h = LAYER.L_Data() if f is None else LAYER.L_Data.make_from(kit.to_msg(f))[0]
        want = fields(h)
        if f is None:
            ctx.expect(
                want["source"] == 0 and want["destination"] == 0 and want["tpci"] == 0
                and want["apci"] == 0 and want["address_type"] == "individual",
                "a new header reads %r" % want,
            )
        for _ in range(rng.choice([1, 3, 10])):
            what = rng.choice(["source", "destination", "address_type", "connected", "apci", "data", "nsdu"])
            if what in ("source", "destination"):
                v = rng.choice([0, 1, 0xFF, 0x100, 0xFFFF, rng.randrange(0x10000)])
                want[what] = v
                setattr(h, what, v)
            elif what == "address_type":
                v = rng.choice(list(LAYER.AddressType))
                want[what] = v.name
                h.address_type = v
            elif what == "connected":
                v = rng.random() < 0.5
                want["connected"] = v
                want["tpci"] = want["tpci"] & 0x7F | v << 7
                h.connected = v
            elif what == "apci":
                v = rng.choice([0, 0x40, 0x80, 0x3D5, 0x3D7, rng.randrange(0x400)])
                want["tpci"] = want["tpci"] & 0xFC | v >> 8
                want.update(apci=v, apci_value=v & 0xFF, data=v & 0x3F)
                h.apci = v
            elif what == "data":
                v = rng.randrange(64)
                want["data"] = v
                want["apci"] = want["apci"] & ~0x3F | v
                want["apci_value"] = want["apci_value"] & 0xC0 | v
                h.data = v
            else:
                v = rng.choice(sorted(kinds))
                ctrl2, dst, tpci = kinds[v]
                # which it is, is told by the address as well
                h.address_type = LAYER.AddressType.group if ctrl2 & 0x80 else LAYER.AddressType.individual
                h.destination = dst
                want["address_type"] = "group" if ctrl2 & 0x80 else "individual"
                want["destination"] = dst
                h.nsdu = LAYER.NSDU[v]
                seq = want["tpci"] & 0x3C
                low = want["tpci"] & 3 if tpci < 0x80 else tpci & 3
                if tpci & 0xC0 == 0:
                    seq = tpci & 0x3C
                want["tpci"] = tpci & 0xC0 | seq | low
                want["connected"] = tpci >= 0x80
                want["apci"] = low << 8 | want["apci_value"]
            want["nsdu"] = kind_of(
                0x80 if want["address_type"] == "group" else 0, want["destination"], want["tpci"]
            )
            ctx.event("set", what, v)
            got = fields(h)
            bad = differences(want, got)
            ctx.expect(not bad, "after %s is set to %r the header reads %r (and not)" % (what, v, bad))
            ctx.see("set", what, got["nsdu"])
    ctx.floor(events__header=6000, events__set=3000, events__delivered=1000)


# --------------------------------------------------------------------------- #
def E06(ctx):
    """Opening and closing a connection."""
    ctx.rule = (
        "transport connect and disconnect on the three media, between the group and property requests of "
        "random configurations, with the stack's own address changing and frames of every kind heard in between: each is one frame "
        "of the medium with the control TPDU, to the own device, and leaves the session and "
        "the next requests as they were; non-trivial: distinct (medium, service, address)"
    )
    for i, rng in ctx.cases("config", ctx.more(500, 8000)):
        t = kit.random_tables(rng)
        medium = rng.choice(["usb", "ip", "tp"])
        s = kit.Stack(t, medium)
        st = s.state
        if medium == "ip":
            st.communication_channel_id = rng.randrange(256)
            st.sequence_counter_local = rng.randrange(256)
            st.sequence_counter_remote = rng.randrange(256)

        def session():
            return (
                st.sequence_counter_local, st.sequence_counter_remote,
                getattr(st, "communication_channel_id", None),
            )

        def judged(frame, want, what):
            ctx.event("emitted", what, frame.hex())
            if medium == "ip":
                channel, q, reserved, body = spec.parse_tunnel(frame)
                ctx.expect(
                    (channel, q, reserved) == (st.communication_channel_id, st.sequence_counter_local, 0),
                    "%s: %s has channel %d, counter %d" % (what, frame.hex(), channel, q),
                )
            else:
                body = body_of(s, frame)
            ctx.expect(body == want, "%s: %s, not %s" % (what, frame.hex(), want.hex()))

        asaps = [a for a in t.assoc if a]
        for _ in range(rng.choice([2, 4, 9])):
            if rng.random() < 0.4:
                ctx.event("heard", kit.live(rng, s).hex())
            before = session()
            if rng.random() < 0.2:
                t.ia = rng.choice([0x1001, 0xFFFF, rng.randrange(1, 0x10000)])
                s.at.individual_address = k.Address(t.ia)
            if rng.random() < 0.6:
                what, mod, tpci = rng.choice(
                    [("connect", t_connect, 0x80), ("disconnect", t_disconnect, 0x81)]
                )
                cls = k.knxnet_ip.Msg if medium == "ip" else k.Msg
                frame = kit.to_bytes(mod.req.encode(st, cls([])))
                want = spec.cemi(spec.REQ, t.ia, bytes([tpci]), group=False)
            elif rng.random() < 0.4:
                what = "property"
                m, want = a_property(rng, t, 20)
                frame = s.encoded(m)
            else:
                a = rng.choice(asaps)
                to = t.sending_address(a)
                if not to:
                    continue
                what = "read"
                frame = s.encoded(kit.read_req(kit.asap(a)))
                want = spec.cemi(spec.REQ, to, spec.tpdu_group(spec.READ, None, 0))
            judged(frame, want, what)
            ctx.expect(
                session() == before, "%s moves the session from %r to %r" % (what, before, session())
            )
            ctx.see("emitted", medium, what, t.ia)
    ctx.floor(events__emitted=1500)


# --------------------------------------------------------------------------- #
def other_traffic(rng, t, big=False):
    """A well formed frame of a bus, of a service the stack does not have."""
    own = t.ia
    dst = rng.choice([own, own, rng.randrange(0x10000)] + t.addresses())
    src = rng.choice([own, rng.randrange(0x10000)])
    group = rng.random() < 0.25
    r = rng.random()
    if r < 0.4:  # a connection, between any two devices
        tpdu = bytes([rng.choice([0x80, 0x81, 0xC2 | rng.randrange(16) << 2, 0xC3 | rng.randrange(16) << 2])])
        if rng.random() < 0.8:
            group = False
    elif r < 0.6:  # numbered data of one: memory, authorisation, restart, properties
        apci = rng.choice([0x300, 0x340, 0x380, 0x3D1, 0x3D5, 0x3D6, 0x3D7, 0x201, 0x283, 0x80, 0x00])
        tpdu = spec.be(0x4000 | rng.randrange(16) << 10 | apci, 2) + rng.randbytes(rng.choice([0, 1, 3, 6, 12]))
        group = False
    elif r < 0.75:  # services without a connection
        apci = rng.choice([0x300, 0x340, 0x380, 0x3D8, 0x3D9, 0x3D1, 0x180, 0x1C0, 0x100, 0x140, 0xC0, 0x240])
        tpdu = spec.be(apci, 2) + rng.randbytes(rng.choice([0, 0, 2, 4, 7]))
    elif r < 0.85:  # broadcasts: addresses, serial numbers, domain
        group, dst = True, 0
        tpdu = spec.be(rng.choice([0xC0, 0x100, 0x140, 0x3DC, 0x3DE, 0x80, 0x00, 0x3E1]), 2)
        tpdu += rng.randbytes(rng.choice([0, 2, 6, 10]))
    elif r < 0.93:  # property services of nothing, or cut by their sender
        group = False
        tpdu = spec.be(rng.choice([0x3D5, 0x3D6, 0x3D7]), 2) + rng.randbytes(rng.choice([0, 1, 2, 3]))
    else:  # another message code
        code = rng.choice([0x2B, 0x2D, 0x2F, 0x10, 0x11, 0xFB, 0xFC, 0xF0, 0xF1])
        info = kit.random_info(rng, big)
        return bytes([code, len(info)]) + info + rng.randbytes(rng.choice([0, 1, 2, 4, 7, 9, 12]))
    return spec.cemi(
        rng.choice([spec.IND, spec.IND, spec.CON]), dst, tpdu, group=group, src=src,
        ctrl1=kit.random_ctrl1(rng), ctrl2=(0x80 if group else 0) | rng.randrange(8) << 4,
        info=kit.random_info(rng, big),
    )


def delivered(t, f):
    try:
        return spec.decode_cemi(t, f)
    except ValueError:  # a service without its header
        return []


class Wire:
    def __init__(self):
        self.sent = []

    def sendto(self, data, addr=None):
        self.sent.append(bytes(data))

    write = sendto

    def close(self):
        pass

    def is_closing(self):
        return False

    def get_extra_info(self, *a):
        return None


def R10(ctx):
    """The other traffic of the bus."""
    ctx.rule = (
        "connections, numbered data, memory, device, broadcast and cut property services, "
        "and other message codes between the traffic of random configurations: into stacks "
        "of both media, and into a tunnelling client which must acknowledge every one with "
        "its counter; non-trivial: distinct frames of other services"
    )

    def mixed(rng, t, big):
        if rng.random() < 0.6:
            return other_traffic(rng, t, big), "other"
        if rng.random() < 0.3:
            return kit.property_frame(rng, t, rng.choice(FAMILY), rng.choice(OPS)), "own"
        return group_case(ctx, rng, t, rng.choice(FAMILY))[0], "own"

    for i, rng in ctx.cases("stack", ctx.more(700, 12000)):
        t = kit.random_tables(rng)
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        if s.medium == "ip":
            s.state.communication_channel_id = rng.randrange(256)
            s.state.sequence_counter_remote = rng.randrange(256)
        for _ in range(rng.choice([4, 12])):
            f, kind = mixed(rng, t, s.medium == "ip")
            want = delivered(t, f)
            q = s.state.sequence_counter_remote if s.medium == "ip" else None
            o = call(s.receive, f)
            if q is not None:
                got = s.state.sequence_counter_remote
                ctx.expect(
                    got == (q + 1) % 256,
                    "after request %d holding %s, %r is expected" % (q, f.hex(), got),
                )
            ctx.event("frame", kind, s.medium, f.hex(), o)
            ctx.expect(o.ok, "the frame %s on %s: %s" % (f.hex(), s.medium, brief(o)))
            ctx.expect(
                kit.same(want, o.value),
                "%s frame %s is delivered as %r, not %r" % (s.medium, f.hex(), o.value, want),
            )
            if kind == "other":
                ctx.see("other", f)
    for i, rng in ctx.cases("tunnel", ctx.more(120, 2000)):
        t = kit.random_tables(rng, n_asaps=3)
        with vloop.using(vloop.Loop()):
            s = kit.Stack(t, "ip")
            c = k.client.knxnet_ip.Tunneling("10.0.0.1", 4000, "10.0.0.2", 3671, s.state, [])
            wire = Wire()
            c.connection_made(wire)
            channel = rng.randrange(256)
            c.datagram_received(
                spec.connect_res(channel, 0, "10.0.0.2", 3671, t.ia), ("10.0.0.2", 3671)
            )
            del wire.sent[:]
            for q in range(rng.choice([5, 20, 300])):
                q %= 256
                f, kind = mixed(rng, t, True)
                d = spec.tunnel_req(channel, q, f)
                for again in range(rng.choice([1, 1, 1, 2])):
                    o = call(c.datagram_received, d, ("10.0.0.2", 3671))
                    ctx.event("tunnelled", kind, d.hex(), [x.hex() for x in wire.sent])
                    ctx.expect(o.ok, "the client, receiving %s: %s" % (d.hex(), brief(o)))
                    want = [spec.tunnel_ack(channel, q)]
                    ctx.expect(
                        wire.sent == want,
                        "%s is answered by %r, not %r"
                        % (d.hex(), [x.hex() for x in wire.sent], [x.hex() for x in want]),
                    )
                    del wire.sent[:]
    ctx.floor(events__frame=3000, events__tunnelled=3000)

