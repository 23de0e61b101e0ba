"""What is delivered from the octets received."""

import re

import knx_stack as k

from . import age, kit, spec
from .checks_values import expected_description
from .core import brief, call

OPS = ["read", "write", "response"]


def judge(ctx, s, frame, what):
    """Deliver one cEMI frame to a stack; compare with the reference."""
    want = spec.decode_cemi(s.t, frame)
    got = s.receive(frame)
    ctx.event("delivered", s.medium, frame.hex(), got)
    ctx.expect(
        kit.same(want, got),
        "%s: %s frame %s is delivered as %r, not %r" % (what, s.medium, frame.hex(), got, want),
    )
    return want


def group_case(ctx, rng, t, svc, confirm=None, big=False):
    """A group frame aimed at the configuration of t (or next to it)."""
    pool = t.addresses()
    r = rng.random()
    if r < 0.8:
        dst = rng.choice(pool)
    elif r < 0.9:
        dst = rng.choice(pool) ^ (1 << rng.randrange(16))
    else:
        dst = rng.choice([t.ia, rng.randrange(0x10000), 0])
    known = [t.types[a] for a in t.asaps_of(dst) if a in t.types]
    d = spec.TYPES[rng.choice(known or sorted(spec.TYPES))]
    op = rng.choice(["read", "write", "write", "response"])
    w = kit.random_word(rng, d)
    return kit.group_frame(rng, t, svc, dst, d, op, w, confirm, big), d, op, dst


def typed_tables(rng, name):
    """Every ASAP has the same size of payload, so all deliveries are exact."""
    return kit.random_tables(rng, types=[name])


def group_check(ctx, svc):
    for i, rng in ctx.cases("mixed", ctx.more(900, 15000)):
        t = kit.random_tables(rng)
        if rng.random() < 0.15 and t.ia not in t.addresses():  # the lowest access point is 0
            t.associate(0, rng.sample(t.addresses(), min(rng.choice([1, 2]), len(t.addresses()))))
            t.types[0] = rng.choice(sorted(spec.TYPES))
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        for _ in range(rng.choice([3, 10])):
            f, d, op, dst = group_case(ctx, rng, t, svc, big=s.medium == "ip")
            want = judge(ctx, s, f, "group " + op)
            ctx.see("mixed", op, len(want), d.name, s.medium)
    for name in sorted(spec.TYPES):
        d = spec.TYPES[name]
        for i, rng in ctx.cases("typed/" + name, ctx.more(60, 1500)):
            t = typed_tables(rng, name)
            s = kit.Stack(t, rng.choice(["usb", "ip"]))
            for _ in range(8):
                op = rng.choice(["write", "write", "response"])
                w = kit.random_word(rng, d)
                dst = rng.choice(t.addresses())
                f = kit.group_frame(rng, t, svc, dst, d, op, w)
                want = judge(ctx, s, f, name)
                ctx.expect(
                    all(m[5] == w for m in want), "harness: reference gives %r" % (want,)
                )
                ctx.see("typed", name, w, op, len(want))
    # a big installation
    for i, rng in ctx.cases("large", ctx.more(12, 150)):
        name = rng.choice(sorted(spec.TYPES))
        t = kit.large_tables(rng, types=[name] if rng.random() < 0.5 else None)
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        for dst in rng.sample(t.addresses(), 25) + t.addresses()[:3] + t.addresses()[-3:]:
            known = [t.types[a] for a in t.asaps_of(dst) if a in t.types]
            d = spec.TYPES[rng.choice(known or [name])]
            op = rng.choice(["read", "write", "write", "response"])
            f = kit.group_frame(rng, t, svc, dst, d, op, kit.random_word(rng, d))
            want = judge(ctx, s, f, "large, group " + op)
            ctx.see("large", op, len(want), len(t.addresses()))
    # thousands of addresses
    for i, rng in ctx.cases("crowded", ctx.more(1, 4)):
        s = kit.crowded_stack(rng, rng.choice(["usb", "ip"]))
        used = [x for a in s.t.assoc.values() for x in a]
        for dst in used + rng.sample(s.t.addresses(), 10):
            known = [s.t.types[a] for a in s.t.asaps_of(dst)]
            d = spec.TYPES[rng.choice(known or sorted(spec.TYPES))]
            f = kit.group_frame(rng, s.t, svc, dst, d, rng.choice(["write", "response"]), kit.random_word(rng, d))
            want = judge(ctx, s, f, "crowded")
            ctx.see("crowded", dst, len(want))
    # every destination against a fixed configuration: only the associated ones
    t = spec.Tables(0x1001, [(1, 0x0901), (2, 0x0901), (2, 0x1102), (3, 0x0902)],
                    [(1, "DPT_Switch"), (2, "DPT_Switch"), (3, "DPT_Switch")])
    s = kit.Stack(t, "usb")
    for dst in ctx.sweep("destination", range(0, 0x10000, ctx.scale(5, 1))):
        judge(ctx, s, spec.cemi(kit.CODES[svc], dst, b"\x00\x81"), "destination")
    for dst in ctx.sweep("near", [0x0901, 0x1102, 0x0902, 0x0900, 0x0903, 0x1902, 0x0102]):
        # every service code with every six bit value; only three services exist
        for apci in range(0x400):
            want = judge(
                ctx, s, spec.cemi(kit.CODES[svc], dst, spec.be(apci, 2)), "service %03x" % apci
            )
            ctx.see("service", dst, apci, len(want))
        # transport layer control octets which are not a group data service
        for tpci in range(0, 256, 4):
            judge(ctx, s, spec.cemi(kit.CODES[svc], dst, bytes([tpci, 0x81])), "tpci")
    # types of the user's own, of any of the sizes, among others of the address
    for bits, octets in ctx.sweep("own", [(n, 0) for n in range(1, 7)] + [(8, 1), (16, 2), (32, 4)]):
        rng = ctx.rng("own", bits)
        d = spec.Type("OwnType", octets, bits)
        cls = kit.own_type(d)
        for medium in ("usb", "ip"):
            s = kit.Stack(spec.Tables(0x1001, [(1, 0x0901), (2, 0x0901), (3, 0x0902)], []), medium)
            for a in (1, 2, 3):
                s.got.associate(kit.asap(a), cls)
            for w in range(d.mask + 1) if bits < 8 else {kit.random_word(rng, d) for _ in range(60)}:
                op = rng.choice(["write", "response"])
                f = spec.cemi(kit.CODES[svc], 0x0901, spec.tpdu_group(kit.OPS[op], d, w))
                got = [
                    m for m in k.decode_msg(s.state, s.to_msg(s.wrap(f))) if hasattr(m, "dpt")
                ]
                ctx.event("delivered", medium, f.hex(), bits)
                ctx.expect(
                    sorted(m.asap.value for m in got) == [1, 2]
                    and all(type(m.dpt) is cls and m.dpt.bits.all == w for m in got),
                    "%s: %x of an own type of %d bits is delivered to %r as %r"
                    % (f.hex(), w, bits, [m.asap for m in got], [m.dpt.bits.all for m in got]),
                )
                ctx.see("own", bits, w)
    # every word of two octets
    names = [n for n in sorted(spec.TYPES) if spec.TYPES[n].octets == 2]
    for name in names if ctx.thorough else [ctx.rng("which").choice(names)]:
        t = spec.Tables(0x1001, [(1, 0x0901)], [(1, name)])
        s = kit.Stack(t, "usb")
        head = s.wrap(spec.cemi(kit.CODES[svc], 0x0901, b"\x00\x80\x00\x00")).hex()[:-4]
        for w in ctx.sweep("all/" + name, range(0x10000)):
            got = k.decode_msg(s.state, k.Msg.make_from_str("%s%04x" % (head, w)))
            ctx.expect(
                len(got) == 1 and got[0].dpt.value == w,
                "%s %04x is delivered as %r" % (name, w, got[0].dpt.value if got else got),
            )
        ctx.event("delivered", name, "all")
        ctx.exhaustive.append("every word of %s" % name)
    # every control field value of a standard frame
    for c1 in ctx.sweep("control", range(256)):
        for c2 in (0x80, 0xE0, 0xF0):
            judge(
                ctx,
                s,
                spec.cemi(kit.CODES[svc], 0x0901, b"\x00\x80", ctrl1=c1 | 0x90, ctrl2=c2),
                "control fields",
            )
    ctx.exhaustive.append("all 1024 service codes, all transport codes, control fields")


def R01(ctx):
    """Group indications reach exactly the associated ASAPs."""
    ctx.rule = (
        "random configurations and group indications (read/write/response, shared and "
        "unassociated addresses, additional information, every control field) in USB and "
        "tunnelling frames; the messages delivered are compared as a multiset with the "
        "reference; non-trivial: distinct (service, type, word, fan-out)"
    )
    group_check(ctx, "ind")
    # message codes which are not a data link indication or confirmation
    t = spec.Tables(0x1001, [(1, 0x0901)], [(1, "DPT_Switch")])
    s = kit.Stack(t, "usb")
    for code in ctx.sweep("message code", range(256)):
        want = judge(ctx, s, spec.cemi(code, 0x0901, b"\x00\x81"), "message code")
        ctx.see("message code", code, len(want))
    age.received(ctx, lambda rng, t: group_case(ctx, rng, t, "ind")[0])
    ctx.floor(events__delivered=10000)


def R02(ctx):
    """Group confirmations carry the confirmed value and the outcome."""
    ctx.rule = (
        "as for indications, with confirmations of both outcomes; non-trivial: distinct "
        "(service, type, word, outcome)"
    )
    group_check(ctx, "con")
    for i, rng in ctx.cases("outcome", ctx.more(500, 8000)):
        t = kit.random_tables(rng)
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        for _ in range(6):
            flag = rng.getrandbits(1)
            f, d, op, dst = group_case(ctx, rng, t, "con", flag)
            want = judge(ctx, s, f, "confirmation")
            ctx.expect(all(m[6] == flag for m in want), "harness: outcome")
            ctx.see("outcome", op, d.name, flag, len(want))
    # the stack has just asked for it; the other ASAPs of the address hear of it too
    for i, rng in ctx.cases("asked", ctx.more(600, 8000)):
        name = rng.choice(sorted(spec.TYPES))
        d = spec.TYPES[name]
        t = kit.random_tables(rng, types=[name])
        asaps = [a for a in t.assoc if a and a in t.types]
        if not asaps:
            continue
        a = rng.choice(asaps)
        for b in rng.sample(asaps, rng.randrange(len(asaps) + 1)):
            t.associate(b, [t.sending_address(a)])
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        bare = kit.Stack(t, "tp")
        for _ in range(4):
            b = rng.choice(asaps)
            if rng.random() < 0.5:
                b = a
            w = kit.random_word(rng, d)
            m = rng.choice(
                [kit.write_req(kit.asap(b), kit.dpt(name, w)), kit.read_req(kit.asap(b))]
            )
            s.encoded(m)
            sent = bare.encoded(m)
            flag = rng.getrandbits(1)
            con = bytes([spec.CON]) + sent[1:2] + bytes([sent[2] & 0xFE | flag]) + sent[3:]
            want = judge(ctx, s, con, "what ASAP %d asked for" % b)
            ctx.see("asked", name, len(want), flag)
    # the confirmation of one's own request
    for i, rng in ctx.cases("own", ctx.more(600, 8000)):
        t = kit.random_tables(rng)
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        bare = kit.Stack(t, "tp")
        a = rng.choice([a for a in t.assoc if a])
        if a not in t.types:
            continue
        d = spec.TYPES[t.types[a]]
        w = kit.random_word(rng, d)
        sent = bare.encoded(kit.write_req(kit.asap(a), kit.dpt(d.name, w)))
        flag = rng.getrandbits(1)
        con = bytes([spec.CON]) + sent[1:2] + bytes([sent[2] & 0xFE | flag]) + sent[3:]
        judge(ctx, s, con, "own request")
        got = [m for m in s.receive(con) if m[3] == a]
        ctx.expect(
            got == [("group", "write", "con", a, d.name, w, flag)],
            "the confirmation of writing %s %x to ASAP %d is %r" % (d.name, w, a, got),
        )
        ctx.see("own", d.name, w, flag)
    age.received(ctx, lambda rng, t: group_case(ctx, rng, t, "con")[0])
    ctx.floor(events__delivered=10000)


# --------------------------------------------------------------------------- #
def R03(ctx):
    """Property services of one's own device, and of no other."""
    ctx.rule = (
        "random and boundary property read/write/response indications and confirmations "
        "from and to the stack's own address and its neighbours, over configurations "
        "whose group addresses coincide with it; non-trivial: distinct (service, "
        "header, data)"
    )
    edges = [0, 1, 0x7F, 0x80, 0xFF]
    for i, rng in ctx.cases("property", ctx.more(2500, 40000)):
        t = kit.random_tables(rng)
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        for _ in range(4):
            svc, op = rng.choice(["ind", "con"]), rng.choice(OPS)
            f = (
                rng.choice(edges + [rng.getrandbits(8)] * 3),
                rng.choice(edges + [rng.getrandbits(8)] * 3),
                rng.choice([0, 1, 15, rng.getrandbits(4)]),
                rng.choice([0, 1, 0xFF, 0x100, 0xFFF, rng.getrandbits(12)]),
            )
            mine = rng.random() < 0.75
            frame = kit.property_frame(rng, t, svc, op, mine, fields=f, big=s.medium == "ip")
            want = judge(ctx, s, frame, "property %s %s" % (op, svc))
            if mine:
                ctx.expect(len(want) == 1, "harness: %r" % (want,))
            ctx.see("property", op, svc, mine, f)
    t = spec.Tables(0x1001, [(1, 0x1001), (2, 0x0901)], [(1, "DPT_Switch"), (2, "DPT_Switch")])
    for medium in ("usb", "ip"):
        s = kit.Stack(t, medium)
        for apci in ctx.sweep("service " + medium, range(0x400)):
            for code in (spec.IND, spec.CON):
                for src, dst in ((0x1001, 0x0901), (0x0901, 0x1001), (0x1001, 0x1001)):
                    f = spec.cemi(
                        code,
                        dst,
                        spec.be(apci, 2) + bytes([0, 0x7B, 0x10, 0x21, 0xFF]),
                        group=False,
                        src=src,
                    )
                    want = judge(ctx, s, f, "service %03x" % apci)
                    ctx.see("service", apci, code, src, dst, len(want))
        for tpci in ctx.sweep("transport " + medium, range(0, 256, 4)):
            for code in (spec.IND, spec.CON):
                f = spec.cemi(
                    code, 0x1001, bytes([tpci | 3, 0xD6, 0, 1, 0x10, 1, 9]), group=False, src=0x1001
                )
                judge(ctx, s, f, "transport %02x" % tpci)
    ctx.exhaustive.append("all 1024 service codes and transport codes for one's own address")
    age.received(
        ctx, lambda rng, t: kit.property_frame(rng, t, rng.choice(["ind", "con"]), rng.choice(OPS), rng.random() < 0.7)
    )
    ctx.floor(events__delivered=10000)


# --------------------------------------------------------------------------- #
def R04(ctx):
    """USB envelope: only whole cEMI reports, whatever the padding."""
    ctx.rule = (
        "valid group reports with every padding length and arbitrary padding octets, "
        "then with each envelope octet set to each other value; device feature "
        "reports; non-trivial: distinct (envelope octet, value) and paddings"
    )
    def at(t, report):
        s = kit.Stack(t, "usb")
        o = s.decode(report)
        ctx.event("report", report.hex(), o)
        ctx.expect(o.ok and isinstance(o.value, list), "report %s: %r" % (report.hex(), o))
        return [kit.abstract(m) for m in o.value]

    for i, rng in ctx.cases("padding", ctx.more(2000, 30000)):
        t = kit.random_tables(rng)
        if rng.random() < 0.75:
            f, d, op, dst = group_case(ctx, rng, t, rng.choice(["ind", "con"]))
        else:
            f = kit.property_frame(rng, t, rng.choice(["ind", "con"]), rng.choice(OPS))
        want = spec.decode_cemi(t, f)
        whole = spec.usb(f)
        room = max(0, 64 - len(whole))
        pad = rng.randbytes(rng.choice([0, room, room, rng.randrange(room + 1)]))
        if rng.random() < 0.3:
            pad = bytes(len(pad))
        report = whole + pad
        n = rng.choice([0, 0, len(pad)])  # padding counted in the data length, or not
        report = report[:2] + bytes([report[2] + n]) + report[3:]
        report = report[:1] + bytes([rng.randrange(16) << 4 | 3]) + report[2:]
        got = at(t, report)
        ctx.expect(
            kit.same(want, got),
            "report %s (%d octets of padding) is delivered as %r, not %r"
            % (report.hex(), len(pad), got, want),
        )
        ctx.see("padding", len(pad), n, len(f))

    t = spec.Tables(0x1001, [(1, 0x0901)], [(1, "DPT_Value_Temp")])
    good = spec.usb(spec.cemi(spec.IND, 0x0901, b"\x00\x80\x0c\x1a"))
    legal = {0: {1}, 1: {v for v in range(256) if v & 15 == 3}, 3: {0}, 4: {8}, 7: {1}, 8: {3},
             9: {0}, 10: {0}}
    names = {0: "report identifier", 1: "packet info", 3: "protocol version",
             4: "header length", 7: "protocol", 8: "EMI", 9: "manufacturer", 10: "manufacturer"}
    for at_ in sorted(legal):
        for v in ctx.sweep("octet %d" % at_, range(256)):
            report = good[:at_] + bytes([v]) + good[at_ + 1:]
            got = at(t, report)
            want = (
                [("group", "write", "ind", 1, "DPT_Value_Temp", 0x0C1A, None)]
                if v in legal[at_]
                else []
            )
            ctx.expect(
                got == want, "%s %02x: delivered %r, not %r" % (names[at_], v, got, want)
            )
            ctx.see("octet", at_, v)

    for svc in ctx.sweep("feature", range(256)):
        for fid in list(range(8)) + [0x80 | svc & 7, 0xFF]:
            for v in (0, 1, 2, 3, 4, 0x80, 0xFF):
                for maker in (0, 0, 1, 0x100):
                    report = spec.usb(
                        bytes([fid, v]), protocol=0x0F, emi=svc, manufacturer=maker
                    )
                    if (svc + v) & 1:
                        report = report.ljust(64, b"\0")
                    o = kit.Stack.decode(FEATURES, report)
                    want = None
                    if svc in (2, 4) and maker == 0:
                        if fid == 3:
                            want = {0: ("status", "Disconnected"), 1: ("status", "Connected")}.get(v)
                        elif fid == 5:
                            want = {1: ("type", "emi1"), 2: ("type", "emi2"), 3: ("type", "cEMI")}.get(v)
                    ctx.event("feature", report.hex(), o)
                    ctx.expect(o.ok and isinstance(o.value, list), "report %s: %r" % (report.hex(), o))
                    got = o.value
                    if want:
                        ctx.expect(
                            len(got) == 1
                            and getattr(got[0], want[0], None) == want[1],
                            "feature report %s is delivered as %r, not %r" % (report.hex(), got, want),
                        )
                    else:
                        ctx.expect(got == [], "feature report %s is delivered as %r" % (report.hex(), got))
                    ctx.see("feature", svc, fid, v, maker)
    ctx.exhaustive.append("every value of every envelope octet")
    ctx.floor(events__report=3000, events__feature=10000)


class _Features:
    """A stack without any table: feature reports need none."""

    medium = "usb"
    state = k.State(kit.MEDIA["usb"], None, None)
    to_msg = kit.Stack.to_msg


FEATURES = _Features()


# --------------------------------------------------------------------------- #
def corrupt(rng, frame):
    b = bytearray(frame)
    for _ in range(rng.choice([1, 1, 2, 4])):
        r = rng.random()
        if r < 0.45 and b:
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif r < 0.6 and b:
            b[rng.randrange(len(b))] = rng.choice([0, 1, 0x7F, 0x80, 0xFF])
        elif r < 0.75:
            del b[rng.randrange(len(b) + 1):]
        elif r < 0.85:
            b += rng.randbytes(rng.randrange(1, 20))
        elif r < 0.93 and b:
            del b[rng.randrange(len(b))]
        else:
            b.insert(rng.randrange(len(b) + 1), rng.getrandbits(8))
    return bytes(b)


def R05(ctx):
    """Garbage does no harm."""
    ctx.rule = (
        "random octets and truncated, extended, corrupted and spliced frames of every kind "
        "into live USB and tunnelling stacks; each gives a list of messages or an "
        "ordinary exception, what is delivered belongs to the configuration, the session "
        "is not disturbed, and valid traffic right after is delivered and sent as by "
        "the reference; non-trivial: distinct garbage frames"
    )
    for i, rng in ctx.cases("storm", ctx.more(900, 15000)):
        t = kit.random_tables(rng)
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        st = s.state
        if s.medium == "ip":
            st.communication_channel_id = rng.randrange(256)
            st.sequence_counter_remote = rng.randrange(256)
            st.sequence_counter_local = rng.randrange(256)
        for _ in range(rng.choice([4, 12])):
            for _ in range(rng.randrange(4)):
                r = rng.random()
                if r < 0.2:
                    g = rng.randbytes(rng.choice([0, 1, 2, 3, 5, 9, 11, 20, 64]))
                    if rng.random() < 0.5:
                        g = (b"\x01\x13" if s.medium == "usb" else b"\x06\x10\x04\x20") + g
                elif r < 0.75:
                    f, *_ = group_case(ctx, rng, t, rng.choice(["ind", "con"]))
                    g = corrupt(rng, s.wrap(f))
                elif r < 0.87:
                    f = kit.property_frame(rng, t, rng.choice(["ind", "con"]), rng.choice(OPS))
                    g = corrupt(rng, s.wrap(f))
                elif r < 0.94 and s.medium == "ip":
                    g = corrupt(rng, response(rng, s))
                else:  # an envelope within an envelope, of the other medium
                    f, *_ = group_case(ctx, rng, t, "ind")
                    g = s.wrap(spec.usb(f) if s.medium == "ip" else spec.tunnel_req(1, 0, f))
                before = snapshot(st)
                o = s.decode(g)
                ctx.event("garbage", g.hex(), o)
                ctx.count("garbage accepted" if o.ok else "garbage refused")
                if o.ok:
                    ctx.expect(
                        isinstance(o.value, list), "frame %s: %s" % (g.hex(), brief(o.value))
                    )
                    plausible(ctx, t, g, o.value)
                # acks, connect and disconnect responses are meant to act
                if not (acts(o, g) and s.medium == "ip" and g[:4] in ACTING):
                    after = snapshot(st)
                    ctx.expect(
                        before == after,
                        "frame %s changed the session from %r to %r" % (g.hex(), before, after),
                    )
                ctx.see("garbage", g)
            f, d, op, dst = group_case(ctx, rng, t, rng.choice(["ind", "con"]))
            judge(ctx, s, f, "right after garbage")
            a = rng.choice([a for a in t.assoc if a])
            got = kit.to_bytes(s.encode(kit.read_req(kit.asap(a))).value)
            inner = spec.parse_usb(got)[3] if s.medium == "usb" else spec.parse_tunnel(got)[3]
            ctx.event("sent", got.hex())
            ctx.expect(
                inner
                == spec.cemi(spec.REQ, t.sending_address(a), spec.tpdu_group(spec.READ, None, 0)),
                "right after garbage, reading ASAP %d sends %s" % (a, got.hex()),
            )
    # every frame cut short, inside the envelope and with it
    for i, rng in ctx.cases("cut", ctx.more(250, 4000)):
        t = kit.random_tables(rng)
        s = kit.Stack(t, rng.choice(["usb", "ip"]))
        st = s.state
        if s.medium == "ip":
            st.communication_channel_id = rng.randrange(1, 256)
            st.sequence_counter_remote = rng.randrange(256)
            st.sequence_counter_local = rng.randrange(256)
        if s.medium == "ip" and rng.random() < 0.4:
            whole = response(rng, s)
            cuts = [whole[:n] for n in range(len(whole))]
            if rng.random() < 0.5:  # with the length of what is left
                cuts = [g[:4] + spec.be(len(g), 2) + g[6:] for g in cuts if len(g) >= 6]
            f = None
        else:
            if rng.random() < 0.75:
                f = group_case(ctx, rng, t, rng.choice(["ind", "con"]))[0]
            else:
                f = kit.property_frame(rng, t, rng.choice(["ind", "con"]), rng.choice(OPS))
            n = f[1]
            cuts = [s.wrap(f[:c]) for c in range(2 + n + 9)]
            if rng.random() < 0.5:  # the NPDU length agrees with one octet of TPDU
                cuts.append(s.wrap(f[: 2 + n + 6] + b"\x00" + f[2 + n + 7: 2 + n + 8]))
        for g in cuts:
            before = snapshot(st)
            o = s.decode(g)
            ctx.event("cut", g.hex(), o)
            if f is not None:
                got = [] if not o.ok else [kit.abstract(m) for m in o.value]
                got = [m for m in got if m[0] != "other"]
                ctx.expect(
                    got == [], "the frame %s, which has no service, is delivered as %r" % (g.hex(), got)
                )
            if not (acts(o, g) and g[:4] in ACTING):
                ctx.expect(
                    before == snapshot(st),
                    "frame %s changed the session from %r to %r" % (g.hex(), before, snapshot(st)),
                )
            ctx.see("cut", len(g), g[:4], o.ok)
        f, *_ = group_case(ctx, rng, t, rng.choice(["ind", "con"]))
        judge(ctx, s, f, "right after cut frames")
    # a medium whose frames can not be decoded gives no messages, and not nothing
    for i, rng in ctx.cases("medium", ctx.more(60, 600)):
        t = kit.random_tables(rng)
        s = kit.Stack(t, "tp")
        f = group_case(ctx, rng, t, rng.choice(["ind", "con"]))[0]
        g = rng.choice([f, f[2:], spec.usb(f), spec.tunnel_req(0, 0, f), rng.randbytes(9)])
        o = s.decode(g)
        ctx.event("medium", g.hex(), o)
        ctx.expect(
            not o.ok or isinstance(o.value, list), "frame %s: %s" % (g.hex(), brief(o.value))
        )
        if o.ok:
            plausible(ctx, t, g, o.value)
    ctx.floor(events__garbage=3000, events__delivered=3000)


def acts(o, g):
    """May this frame of a service which acts have acted? Not a response which is
    refused; an acknowledge tells its counter whatever its status is."""
    return o.ok or (g[:4] == b"\x06\x10\x04\x21" and len(g) >= 10)


def response(rng, s):
    """A response of the gateway."""
    ch = rng.choice([s.state.communication_channel_id, rng.randrange(256)])
    n = s.state.sequence_counter_local
    return rng.choice(
        [
            spec.connect_res(ch, 0, ia=rng.randrange(0x10000)),
            spec.connect_res(ch, rng.choice([0x22, 0x24])),
            spec.refuse_res(0x24, ch),
            spec.state_res(ch, rng.choice([0, 0x21])),
            spec.disconnect_res(ch, 0),
            spec.tunnel_ack(ch, n),
            spec.search_res("10.0.0.1", 3671, rng.randrange(0x10000)),
        ]
    )


ACTING = {b"\x06\x10" + spec.be(x, 2) for x in (spec.TUNNEL_ACK, spec.CONNECT_RES, spec.DISCONNECT_RES)}


def snapshot(st):
    return (
        getattr(st, "communication_channel_id", None),
        st.sequence_counter_local,
        st.sequence_counter_remote,
        st.individual_address.free_style,
    )


def plausible(ctx, t, g, msgs):
    """Whatever is delivered names a configured ASAP with its own type."""
    for m in msgs:
        a = kit.abstract(m)
        if a[0] == "group":
            ctx.expect(
                t.types.get(a[3]) == a[4] and t.assoc.get(a[3]),
                "frame %s is delivered as %r, which is not configured" % (g.hex(), a),
            )
            ctx.count("garbage delivered")


# --------------------------------------------------------------------------- #
def R06(ctx):
    """Messages depend on the octets and the tables, not on what came before."""
    ctx.rule = (
        "one long lived stack per case decodes and encodes interleaved traffic of every "
        "kind, failures included; each result is compared with that of a new stack given "
        "only that message; inputs are compared before and after, delivered values are "
        "modified to expose sharing; non-trivial: distinct (previous, current) operations"
    )
    for i, rng in ctx.cases("history", ctx.more(250, 4000)):
        t = kit.random_tables(rng)
        medium = rng.choice(["usb", "ip"])
        if rng.random() < 0.25:  # many which listen to one address
            x, name = rng.choice(t.addresses()), rng.choice(sorted(spec.TYPES))
            for a in range(200, 200 + rng.choice([5, 9, 20])):
                t.associate(a, [x])
                t.types[a] = name
        big = medium == "ip"
        old = kit.Stack(t, medium)
        last = "nothing"
        kept, sent = [], []
        for _ in range(rng.choice([5, 20, 40])):
            new = kit.Stack(t, medium)
            if medium == "ip":
                for x in ("communication_channel_id", "sequence_counter_local", "sequence_counter_remote"):
                    setattr(new.state, x, getattr(old.state, x))
            r = rng.random()
            if r < 0.55:
                if r < 0.4:
                    f, d, op, _ = group_case(ctx, rng, t, rng.choice(["ind", "con"]), big=big)
                    now = "group " + op
                elif r < 0.48:
                    f = kit.property_frame(rng, t, rng.choice(["ind", "con"]), rng.choice(OPS), rng.random() < 0.7, big=big)
                    now = "property"
                else:
                    f = corrupt(rng, group_case(ctx, rng, t, "ind")[0])
                    now = "broken"
                m = old.to_msg(old.wrap(f))
                text = str(m)
                a, b = call(k.decode_msg, old.state, m), call(k.decode_msg, new.state, m)
                again = call(k.decode_msg, new.state, m)
                ctx.event("decoded", now, text, a)
                ctx.expect(str(m) == text, "decoding changed the message %s to %s" % (text, m))
                ctx.expect(
                    a.ok == b.ok == again.ok,
                    "%s after %s: %r, in a new stack: %r, again: %r" % (text, last, a, b, again),
                )
                if a.ok:
                    x, y, z = ([kit.abstract(v) for v in o.value] for o in (a, b, again))
                    ctx.expect(
                        x == y == z,
                        "%s after %s gives %r, in a new stack %r, again %r" % (text, last, x, y, z),
                    )
                    ctx.expect(
                        show(a.value) == show(b.value),
                        "%s after %s shows as %s, in a new stack %s"
                        % (text, last, show(a.value), show(b.value)),
                    )
                    kept += [(v, kit.abstract(v), show(v)) for v in a.value]
                    # a delivered value belongs to who received it
                    for n, v in enumerate(again.value):
                        if hasattr(v, "dpt"):
                            v.dpt.value = ~v.dpt.value & spec.TYPES[type(v.dpt).__name__].mask
                            if n + 1 < len(z):
                                ctx.expect(
                                    kit.abstract(again.value[n + 1]) == z[n + 1],
                                    "two values delivered for %s are one" % text,
                                )
                    ctx.expect(
                        [kit.abstract(v) for v in b.value] == y,
                        "values delivered for %s are shared" % text,
                    )
                    if medium == "ip" and a.value and hasattr(a.value[0], "sequence_counter"):
                        if rng.random() < 0.7:
                            h = a.value[0]
                            k.encode_msg(
                                old.state, k.knxnet_ip.tunneling.ack.Msg(h.sequence_counter, h.status)
                            )
            else:
                now, m = some(rng, t)
                shown = show(m)
                word = m.dpt.value if hasattr(m, "dpt") else None
                a, b = old.encode(m), new.encode(m)
                if a.ok:
                    sent.append((a.value, str(a.value)))
                ctx.event("encoded", now, a)
                ctx.expect(show(m) == shown, "encoding changed %s to %s" % (shown, show(m)))
                ctx.expect(
                    word is None or m.dpt.value == word,
                    "encoding changed the value of %s from %s" % (shown, word),
                )
                ctx.expect(
                    a.ok == b.ok and (not a.ok or str(a.value) == str(b.value)),
                    "%s after %s: %r, in a new stack: %r" % (shown, last, a, b),
                )
            ctx.see("pair", last, now, medium)
            last = now
        for v, was in sent:
            ctx.expect(str(v) == was, "a message encoded as %s became %s" % (was, v))
        for v, was, shown in kept:
            ctx.expect(
                kit.abstract(v) == was and show(v) == shown,
                "a message delivered as %s became %s" % (shown, show(v)),
            )
    ctx.floor(events__decoded=2000, events__encoded=1500)


def show(x):
    """The text form; a value with an undefined code has none."""
    return brief(x, 10000)


def some(rng, t):
    asaps = [a for a in t.assoc if a]
    r = rng.random()
    if r < 0.1:  # no such ASAP
        return "unknown", kit.read_req(kit.asap(900))
    if r < 0.25:
        f = (rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(4), rng.getrandbits(12))
        return "property req", rng.choice(
            [kit.prop_read_req(kit.asap(0), f), kit.prop_write_req(kit.asap(0), f, b"\x55\xaa")]
        )
    a = rng.choice(asaps)
    if r < 0.5 or a not in t.types:
        return "read req", kit.read_req(kit.asap(a))
    d = spec.TYPES[t.types[a]]
    make = rng.choice([kit.write_req, kit.write_ind])
    w = kit.random_word(rng, d)
    if rng.random() < 0.1:  # with bits which are none of its
        w |= rng.randrange(1, 256) << d.mask.bit_length()
    return "write " + d.name, make(kit.asap(a), kit.dpt(d.name, w))


# --------------------------------------------------------------------------- #
def R07(ctx):
    """What one stack writes, another one reads."""
    ctx.rule = (
        "a writing stack, the bus turning its request into an indication, one or more "
        "reading stacks with other ASAPs for the same addresses; values set and read "
        "through the datapoint types' own fields; received values forwarded further; "
        "non-trivial: distinct (type, word, media)"
    )
    names = sorted(spec.TYPES)
    for i, rng in ctx.cases("pair", ctx.more(2200, 40000)):
        ta = kit.random_tables(rng)
        a = rng.choice([x for x in ta.assoc if x])
        name = rng.choice(names)
        ta.types[a] = name
        to = ta.sending_address(a)
        d = spec.TYPES[name]
        w = kit.random_word(rng, d)
        sender = kit.Stack(ta, rng.choice(["usb", "ip", "tp"]))
        value = kit.dpt(name, w)
        out = sender.encoded(kit.write_req(kit.asap(a), value))
        body = {
            "usb": lambda: spec.parse_usb(out)[3],
            "ip": lambda: spec.parse_tunnel(out)[3],
            "tp": lambda: out,
        }[sender.medium]()
        ctx.event("sent", name, "%x" % w, body.hex())
        for _ in range(rng.choice([1, 2])):
            tb = kit.random_tables(rng, types=[name])
            mine = rng.choice([x for x in tb.assoc if x])
            tb.associate(mine, [to])
            tb.types[mine] = name
            reader = kit.Stack(tb, rng.choice(["usb", "ip"]))
            # on the bus: the sender's address, some repetition and hop count
            ind = (
                bytes([spec.IND])
                + body[1:2]
                + bytes([kit.random_ctrl1(rng), 0x80 | rng.randrange(8) << 4])
                + spec.be(ta.ia, 2)
                + body[6:]
            )
            msgs = k.decode_msg(reader.state, reader.to_msg(reader.wrap(ind)))
            if reader.medium == "ip":
                head = msgs.pop(0)
                k.encode_msg(
                    reader.state, k.knxnet_ip.tunneling.ack.Msg(head.sequence_counter, head.status)
                )
            got = [kit.abstract(m) for m in msgs]
            want = [
                ("group", "write", "ind", x, name, w, None)
                for x in tb.asaps_of(to)
                if x in tb.types
            ]
            ctx.event("received", got)
            ctx.expect(
                kit.same(want, got),
                "%s %x written to %04x is received as %r, not %r" % (name, w, to, got, want),
            )
            m = next(m for m in msgs if m.asap.value == mine)
            ctx.expect(
                readings(m.dpt) == readings(value),
                "%s %x reads %r where it was sent and %r where it is received"
                % (name, w, readings(value), readings(m.dpt)),
            )
            ctx.expect(
                m.asap.value == mine and type(m.dpt) is kit.dpt_class(name),
                "delivered to %r as %r" % (m.asap, type(m.dpt)),
            )
            # forwarded as it was received
            bare = kit.Stack(tb, "tp")
            again = bare.encoded(kit.write_req(kit.asap(mine), m.dpt))
            want = spec.cemi(
                spec.REQ, tb.sending_address(mine), spec.tpdu_group(spec.WRITE, d, w)
            )
            ctx.event("forwarded", again.hex())
            ctx.expect(
                again == want, "%s %x is forwarded as %s, not %s" % (name, w, again.hex(), want.hex())
            )
            ctx.see("pair", name, w, sender.medium, reader.medium)
    # a write indication made by a stack is what a reading stack decodes
    for i, rng in ctx.cases("direct", ctx.more(900, 15000)):
        medium = rng.choice(["usb", "ip"])
        t = kit.random_tables(rng)
        a = rng.choice([x for x in t.assoc if x])
        t.types[a] = rng.choice(names)
        name = t.types[a]
        d = spec.TYPES[name]
        w = kit.random_word(rng, d)
        one, two = kit.Stack(t, medium), kit.Stack(t, medium)
        if medium == "ip":
            two.state.sequence_counter_remote = one.state.sequence_counter_local
        out = one.encoded(kit.write_ind(kit.asap(a), kit.dpt(name, w)))
        msgs = [kit.abstract(m) for m in k.decode_msg(two.state, two.to_msg(out))]
        ctx.event("direct", out.hex(), msgs)
        got = [m for m in msgs if m[0] == "group" and m[3] == a]
        ctx.expect(
            got == [("group", "write", "ind", a, name, w, None)],
            "the indication of %s %x for ASAP %d is received as %r" % (name, w, a, msgs),
        )
        ctx.see("direct", name, w, medium)
    ctx.floor(events__received=2000, events__direct=500)


def readings(d):
    t = spec.TYPES[type(d).__name__]
    if t.kind in ("f16", "f32"):
        v = call(d.decode).value
        return "nan" if v != v else v
    if t.kind == "raw":
        return d.value
    out = {}
    for name in t.fields:
        o = call(getattr, d, name)
        out[name] = int(o.value) if o.ok else "undefined"
    return out


# --------------------------------------------------------------------------- #
GROUP_TEXT = re.compile(r"GroupValue(Read|Write|Response)(Ind|Con|Req)\b(.*)", re.S)
PROP_TEXT = re.compile(r"PropertyValue(Read|Write|Response)(Ind|Con|Req)\b(.*)", re.S)


def shown_asap(text):
    """(number, name) of the access point a message is for, as its text has it."""
    m = re.search(r"asap (\d+)(?: \(([^()]*)\))?", text)
    return (int(m.group(1)), m.group(2)) if m else None


def shown_number(label, text):
    m = re.search(r"\b%s (\d+)\b" % label, text)
    return int(m.group(1)) if m else None


def shown_fields(text, t, w):
    """Does the text show the datapoint?"""
    want = expected_description(t, w)
    if want is None or t.name not in text:
        return want is None
    for key, v in want.items():
        m = re.search(r"'%s': ('?)([^',{}]*)\1[,}]" % key, text)
        if not m:
            return False
        if isinstance(v, float) and not isinstance(v, bool):
            if not (spec.close(float(m.group(2)), v, 1e-6 * max(1, abs(v))) or v != v):
                return False
        elif m.group(2) != str(v):
            return False
    return True


def R08(ctx):
    """What a message prints as is what it carries."""
    ctx.rule = (
        "messages of every kind, delivered from random frames and made by a user, printed; "
        "the text is taken apart and compared with the reference: service, outcome, access "
        "point with its name, datapoint or property fields, endpoint; non-trivial: distinct "
        "texts"
    )
    for i, rng in ctx.cases("delivered", ctx.more(350, 6000)):
        t = kit.random_tables(rng)
        named = {a: rng.choice([None, "light %d" % a, "a b", " c ", "d" * rng.randrange(1, 400)]) for a in set(t.assoc) | set(t.types)}
        named[0] = None  # the stack's own access point carries no name
        at = k.AddressTable(k.Address(t.ia), [], t.max_size)
        assoc = k.AssociationTable(at, [])
        points = {a: kit.asap(a, n) for a, n in named.items()}
        for a, addrs in t.assoc.items():
            if a:
                assoc.associate(points[a], [kit.G(x) for x in addrs])
        got = k.GroupObjectTable({points[a]: kit.dpt_class(n) for a, n in t.types.items()})
        state = k.State(kit.MEDIA["usb"], assoc, got)
        for _ in range(8):
            svc = rng.choice(["ind", "con"])
            if rng.random() < 0.7:
                f, *_ = group_case(ctx, rng, t, svc)
            else:
                f = kit.property_frame(rng, t, svc, rng.choice(OPS))
            want = spec.decode_cemi(t, f)
            msgs = k.decode_msg(state, kit.to_msg(spec.usb(f)))
            ctx.expect(len(msgs) == len(want), "frame %s gives %r", f.hex(), len(msgs))
            for m in msgs:
                a = kit.abstract(m)
                if a[0] == "group" and expected_description(spec.TYPES[a[4]], a[5]) is None:
                    ctx.count("not describable")
                    continue
                text = repr(m)
                ctx.event("shown", text)
                ctx.see("text", text)
                judge_text(ctx, a, text, named)
                ctx.expect(str(m) == text and "{}".format(m) == text, "%r or %r" % (str(m), text))
    for i, rng in ctx.cases("requests", ctx.more(600, 8000)):
        n = rng.randrange(1, 300)
        name = rng.choice([None, "kitchen", "on/off light", "attic ", " cellar", "e f" * rng.randrange(1, 150)])
        p = kit.asap(n, name)
        d = spec.TYPES[rng.choice(sorted(spec.TYPES))]
        w = kit.random_word(rng, d)
        f = tuple(rng.choice([0, x, x, x]) for x in (rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(4), rng.getrandbits(12)))
        data = rng.randbytes(rng.randrange(12))
        made = [
            (kit.read_req(p), ("group", "read", "req", n, None, None, None)),
            (kit.prop_read_req(p, f), ("property", "read", "req", n) + f + (None, None)),
            (kit.prop_write_req(p, f, data), ("property", "write", "req", n) + f + (data.hex().upper(), None)),
        ]
        if expected_description(d, w) is not None:
            made.append((kit.write_req(p, kit.dpt(d.name, w)), ("group", "write", "req", n, d.name, w, None)))
            made.append((kit.write_ind(p, kit.dpt(d.name, w)), ("group", "write", "ind", n, d.name, w, None)))
        for m, a in made:
            text = repr(m)
            ctx.event("shown", text)
            ctx.see("text", text)
            judge_text(ctx, a, text, {n: name})
        # the same message, its datapoint set to something else
        for m, a in made[3:]:
            w = kit.random_word(rng, d)
            if expected_description(d, w) is not None:
                m.dpt.value = w
                judge_text(ctx, a[:5] + (w,) + a[6:], repr(m), {n: name})
                ctx.count("shown again")
        text = repr(p)
        ctx.expect(
            text == (str(n) if name is None else "%d (%s)" % (n, name)),
            "access point %d %r shows as %r" % (n, name, text),
        )
    NET = k.knxnet_ip
    for i, rng in ctx.cases("net", ctx.more(400, 5000)):
        def end():
            host = ".".join(str(rng.choice([0, 10, 255, rng.randrange(256)])) for _ in range(4))
            return host, rng.choice([0, 1, 3671, 0xFFFF, rng.randrange(0x10000)])

        a, b = end(), end()
        core = NET.core
        ia, q, ch = (rng.choice([0, rng.randrange(n)]) for n in (0x10000, 256, 256))
        for name, m, parts in (
            ("ConnectReq", core.connect.req.Msg(a[0], a[1], b[0], b[1]), ["%s:%d" % a, "%s:%d" % b]),
            ("ConnectionstateReq", core.connectionstate.req.Msg(*a), ["%s:%d" % a]),
            ("DisconnectReq", core.disconnect.req.Msg(*a), ["%s:%d" % a]),
            ("SearchReq", core.search.req.Msg(*a), ["%s:%d" % a]),
            ("SearchRes", core.search.res.Msg(a[0], a[1], k.Address(ia)),
             ["ip=%s," % a[0], "port=%d," % a[1], "0x%04X" % ia]),
            ("ConnectRes", core.connect.res.Msg(a[0], a[1], k.Address(ia), 0x24),
             ["ip=%s," % a[0], "port=%d," % a[1], "0x%04X" % ia, "status=36"]),
            ("ConnectionstateRes", core.connectionstate.res.Msg(0x26), ["status=38"]),
            ("DisconnectRes", core.disconnect.res.Msg(ch, 0x21), ["channel_id=%d," % ch, "status=33"]),
            ("TunnelingAck", NET.tunneling.ack.Msg(q, 0x29), ["counter=%d," % q, "status=41"]),
            ("TunnelingReq", NET.tunneling.req.Msg(q, 0x29), ["counter=%d," % q, "status=41"]),
        ):
            text = repr(m)
            ctx.event("shown", text)
            ctx.see("net", text)
            at_ = 0
            ok = text.startswith(name)
            for part in parts:  # in this order
                at_ = text.find(part, at_)
                ok = ok and at_ >= 0
            ctx.expect(ok, "%s of %r, %r shows as %r" % (name, a, b, text))
    ctx.floor(events__shown=3000)


def judge_text(ctx, a, text, named):
    kind = GROUP_TEXT if a[0] == "group" else PROP_TEXT
    m = kind.match(text)
    ctx.expect(
        m and (m.group(1).lower(), m.group(2).lower()) == (a[1], a[2]),
        "%r shows as %r" % (a, text),
    )
    ctx.expect(
        shown_asap(text) == (a[3], named.get(a[3]) or None), "%r shows as %r" % (a, text)
    )
    if a[2] == "con":
        ctx.expect(shown_number("status", text) == a[-1], "%r shows as %r" % (a, text))
    if a[0] == "group":
        ctx.expect(
            a[4] is None or shown_fields(text, spec.TYPES[a[4]], a[5]), "%r shows as %r" % (a, text)
        )
        return
    seen = tuple(
        shown_number(x, text)
        for x in ("object index", "property id", "number of elements", "start index")
    )
    ctx.expect(seen == a[4:8], "%r shows as %r" % (a, text))
    ctx.expect(not a[8] or a[8] in text.upper(), "%r shows as %r" % (a, text))
    if not a[8]:  # and nothing made up in its place
        rest = re.sub(r"\d+ \([^()]*\)|(asap|status|index|id|elements) \d+", " ", m.group(3))
        ctx.expect(not re.search(r"\d|\b[0-9A-F]{2,}\b", rest), "%r shows as %r" % (a, text))
