"""Octets, addresses and datapoint values."""

import math
import struct

import knx_stack as k

from . import kit, spec
from .core import call

DT = k.datapointtypes


# --------------------------------------------------------------------------- #
def V01(ctx):
    """Byte container: nothing lost, reordered or aliased while consuming."""
    ctx.rule = (
        "random and boundary octet strings in mixed-case hex, consumed by random "
        "sequences of octet/short/long/header operations on the three message "
        "classes; an oracle over bytes follows every piece and the remaining text; "
        "non-trivial: distinct (class, length, operation sequence)"
    )
    classes = [("plain", k.Msg), ("ip", k.knxnet_ip.Msg), ("usb", k.usb_hid.Msg)]
    sizes = {"octect": 1, "short": 2, "long": 4}

    for v in ctx.sweep("octet", range(256)):
        o = k.Octect(value=v)
        ctx.event("octet", v)
        ctx.expect(
            (o.nibble.high, o.nibble.low, o.value) == (v >> 4, v & 15, v),
            "octet %02x reads as nibbles %r %r" % (v, o.nibble.high, o.nibble.low),
        )
        made = k.Octect(k.Nibbles(high=v >> 4, low=v & 15))
        ctx.expect(made.value == v, "nibbles of %02x make %r" % (v, made))
        made = k.Octect(value=0xA5)
        made.nibble.high = v >> 4
        ctx.expect(made.value == (v & 0xF0 | 5), "high nibble of %02x in a5 makes %r" % (v, made))
        made.nibble.low = v & 15
        ctx.expect(made.value == v, "nibbles of %02x set in a5 make %r" % (v, made))
        ctx.expect(repr(made) == "0x%02X" % v, "octet %02x shows as %r" % (v, made))
        for text in ("%02x" % v, "%02X" % v):
            m = k.Msg.make_from_str(text)
            ctx.expect(
                [x.value for x in m] == [v] and str(m) == "%02X" % v,
                "hex text %r became %r" % (text, m),
            )
        ctx.see("octet", v)
    ctx.exhaustive.append("all octets and their nibbles")

    step = ctx.scale(7, 1)
    for v in ctx.sweep("short", range(0, 0x10000, step)):
        s = k.Short(value=v)
        ctx.expect(
            (s.MSB.value, s.LSB.value, [o.value for o in s.octects])
            == (v >> 8, v & 255, [v >> 8, v & 255]),
            "short %04x splits as %r %r" % (v, s.MSB, s.LSB),
        )
        ctx.expect(repr(s) == "0x%04X" % v, "short %04x shows as %r" % (v, s))
        h, rest = k.Msg.make_from_str("%04x" % v).short()
        ctx.expect(h.value == v and not rest, "short %04x is read as %r" % (v, h))
    for i, rng in ctx.cases("long", ctx.more(3000, 60000)):
        v = rng.choice([rng.getrandbits(32), 1 << rng.randrange(32), 0xFF << 8 * rng.randrange(4)])
        l = k.Long(value=v)
        b = struct.pack(">I", v)
        ctx.expect(
            bytes(o.value for o in l.octects) == b
            and bytes(x.value for x in (l.B4, l.B3, l.B2, l.B1)) == b,
            "long %08x splits as %r" % (v, l.octects),
        )
        ctx.expect(repr(l) == "0x%08X" % v, "long %08x shows as %r" % (v, l))
        h, rest = k.Msg.make_from_str(b.hex()).long()
        ctx.expect(h.value == v and not rest, "long %08x is read as %r" % (v, h))
        ctx.see("long", v)

    for i, rng in ctx.cases("consume", ctx.more(6000, 150000)):
        name, cls = rng.choice(classes)
        data = rng.randbytes(rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 16, 31, 64]))
        if rng.random() < 0.01:
            data = rng.randbytes(rng.choice([65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 1000]))
        if rng.random() < 0.0005:
            data = rng.randbytes(rng.choice([2047, 2049, 4097]))
        text = "".join(rng.choice([c, c.upper()]) for c in data.hex())
        m = cls.make_from_str(text)
        ctx.event("parsed", name, text)
        ctx.expect(str(m) == data.hex().upper(), "%s became %r" % (text, m))
        ctx.expect(
            str(cls([k.Octect(value=x) for x in data])) == str(m),
            "octets %s make another message" % text,
        )
        ctx.expect(type(m) is cls, "a %s message is made as %s" % (cls, type(m)))
        pos, ops = 0, []
        while True:
            left = len(data) - pos
            fit = [o for o, n in sizes.items() if n <= left]
            if not fit or len(ops) > 1000:
                break
            op = rng.choice(fit)
            before = str(m)
            piece, rest = getattr(m, op)()
            n = sizes[op]
            ctx.event("consumed", op, repr(piece), str(rest))
            ctx.expect(
                piece.value == int.from_bytes(data[pos:pos + n], "big"),
                "%s of %s gave %r" % (op, before, piece),
            )
            ctx.expect(str(m) == before, "%s changed the message it reads" % op)
            pos += n
            ctx.expect(
                str(rest) == data[pos:].hex().upper(),
                "after %s of %s there is %r left" % (op, before, rest),
            )
            ctx.expect(type(rest) is cls, "the rest of a %s is a %s" % (cls, type(rest)))
            m = rest
            ops.append(op)
        for op, n in sizes.items():
            if n > len(data) - pos:
                o = call(getattr(m, op))
                ctx.expect(not o.ok, "%s read past the end: %r" % (op, o))
        ctx.see("consume", name, len(data), tuple(ops))

    for i, rng in ctx.cases("sharing", ctx.more(800, 10000)):
        # messages made apart share nothing, nor do the octets of one message
        data = [bytes(rng.choice([0, 0, 1, 0x11, 0xFF]) for _ in range(rng.choice([4, 6, 9]))) for _ in range(3)]
        ms = [rng.choice(classes)[1].make_from_str(d.hex()) for d in data]
        words = [k.Short(value=rng.choice([0, 0x11, 0x1111])), k.Long(value=rng.choice([0, 0x11, 0x11111111]))]
        parts = [w.octects for w in words]
        state = [list(d) for d in data] + [[o.value for o in x] for x in parts]
        objects = ms + parts
        for n in range(8):
            w = rng.randrange(len(objects))
            x = rng.randrange(len(state[w]))
            v = rng.randrange(256)
            how = rng.randrange(3)
            if how == 0:
                objects[w][x].value = v
                state[w][x] = v
            elif how == 1:
                objects[w][x].nibble.high = v >> 4
                state[w][x] = state[w][x] & 15 | v & 0xF0
            else:
                objects[w][x].nibble.low = v & 15
                state[w][x] = state[w][x] & 0xF0 | v & 15
            ctx.event("set", w, x, v, how)
            ctx.expect(
                [[o.value for o in y] for y in objects] == state,
                "after setting octet %d of message %d to %02x they read %r, not %s"
                % (x, w, v, objects, [bytes(y).hex() for y in state]),
            )
            ctx.expect(
                [repr(y) for y in ms] == [bytes(y).hex().upper() for y in state[:3]],
                "after setting octet %d of message %d they print as %r" % (x, w, objects),
            )
        fresh = k.Msg.make_from_str(data[0].hex())
        ctx.expect(bytes(o.value for o in fresh) == data[0], "%s now reads as %r" % (data[0].hex(), fresh))
        ctx.see("sharing", tuple(data))

    for i, rng in ctx.cases("blocks", ctx.more(2000, 20000)):
        tail = rng.randbytes(rng.randrange(6))
        addr = tuple(rng.choice([0, 1, 10, 127, 192, 255, rng.randrange(256)]) for _ in range(4))
        port = rng.choice([0, 1, 255, 256, 3671, 65535, rng.randrange(65536)])
        M = k.knxnet_ip.Msg
        odd = rng.random() < 0.3  # what an operation consumes is not what the length says
        size = [rng.getrandbits(8) if odd else n for n in (8, 4)]
        ip_, port_, rest = kit.to_msg(
            bytes(size[:1]) + spec.hpai("%d.%d.%d.%d" % addr, port)[1:] + tail, M
        ).HPAI()
        ctx.event("hpai", ip_, port_)
        ctx.expect(
            (ip_, port_, str(rest)) == ("%d.%d.%d.%d" % addr, port, tail.hex().upper()),
            "host address %r:%d is read as %r %r, %r left" % (addr, port, ip_, port_, rest),
        )
        ch, seq, st = rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(8)
        got = kit.to_msg(bytes([size[1], ch, seq, st]) + tail, M).header()
        ctx.event("header", got[:3])
        ctx.expect(
            got[:3] == (ch, seq, st) and str(got[3]) == tail.hex().upper(),
            "connection header %02x %02x %02x is read as %r" % (ch, seq, st, got),
        )
        ia = rng.getrandbits(16)
        kind, who, rest = kit.to_msg(bytes([size[1], 4]) + spec.be(ia, 2) + tail, M).CRD()
        ctx.expect(
            (kind, who.free_style, str(rest)) == (4, ia, tail.hex().upper()),
            "connection response data is read as %r %r" % (kind, who),
        )
        layer = rng.choice([2, 4, 0x80, rng.getrandbits(8)])
        text = tail.hex().upper()
        for C in (M, k.usb_hid.Msg):
            got = kit.to_msg(bytes([4, 4, layer, rng.getrandbits(8)]) + tail, C).CRI()
            plain = [getattr(x, "value", x) for x in got[:2]]
            ctx.expect(
                plain == [4, layer] and str(got[2]) == text and len(got) == 3,
                "connection request information of layer %02x is read as %r" % (layer, got),
            )
            whole = spec.hpai("%d.%d.%d.%d" % addr, port)
            o = call(kit.to_msg(whole[: rng.randrange(8)], C).HPAI)
            ctx.expect(not o.ok, "a host address which is cut off is read: %r" % o)
        U = k.usb_hid.Msg
        got = kit.to_msg(spec.hpai("%d.%d.%d.%d" % addr, port) + tail, U).HPAI()
        ctx.expect(
            got[:2] == ("%d.%d.%d.%d" % addr, port) and str(got[2]) == text,
            "host address %r:%d of a USB message is read as %r" % (addr, port, got),
        )
        got = kit.to_msg(bytes([4, ch, seq, st]) + tail, U).header()
        ctx.expect(
            [x.value for x in got[:2]] == [ch, seq] and str(got[2]) == text,
            "connection header %02x %02x of a USB message is read as %r" % (ch, seq, got),
        )
        got = kit.to_msg(bytes([4, 4]) + spec.be(ia, 2) + tail, U).CRD()
        ctx.expect(
            [x.value for x in got[:2]] == [4, ia] and str(got[2]) == text,
            "connection response data %04x of a USB message is read as %r" % (ia, got),
        )
        ctx.see("block", addr, port, ch, seq)
    ctx.floor(events__consumed=5000)


# --------------------------------------------------------------------------- #
def V02(ctx):
    """One group address, three notations."""
    ctx.rule = (
        "every 16 bit group address built in each notation and read back in all; "
        "field-wise perturbation, equality and hashing of pairs; non-trivial: "
        "distinct addresses"
    )
    A, B, C = k.GroupAddress, k.ThreeLevelStyle, k.TwoLevelStyle
    for n in ctx.sweep("address", range(0x10000)):
        main, sub2, mid, sub3 = n >> 11, n & 0x7FF, (n >> 8) & 7, n & 0xFF
        ways = (
            A(free_style=n),
            A(three_level_style=B(main=main, middle=mid, sub=sub3)),
            A(two_level_style=C(main=main, sub=sub2)),
        )
        text = "(0x%04X %d/%d %d/%d/%d)" % (n, main, sub2, main, mid, sub3)
        for g in ways:
            t3, t2 = g.three_level_style, g.two_level_style
            got = (g.free_style, t2.main, t2.sub, t3.main, t3.middle, t3.sub)
            ctx.expect(
                got == (n, main, sub2, main, mid, sub3),
                "group address %04x reads as %r" % (n, got),
            )
        ctx.expect(ways[0] == ways[1] == ways[2], "notations of %04x differ" % n)
        ctx.expect(len({hash(w) for w in ways}) == 1, "equal addresses %04x hash apart" % n)
        ctx.expect(
            all(repr(w) == text for w in ways), "address %04x shows as %r", n, ways[0]
        )
        a = k.Address(n)
        # a destination decoded from a frame is looked up among group addresses
        ctx.expect(
            a == ways[0] and ways[0] == a and not (a != ways[1]) and not (ways[2] != a)
            and hash(a) == hash(ways[0]) and a in [ways[1]] and ways[2] in {a: n},
            "the number %04x is two addresses" % n,
        )
        ctx.expect(
            a.free_style == n and repr(a) == "0x%04X" % n, "individual %04x is %r" % (n, a)
        )
        twin = k.Address(n)
        ctx.expect(
            a == twin and not (a != twin) and hash(a) == hash(twin) and twin in {a: n},
            "two individual addresses %04x are not one" % n,
        )
        for bit in (n * 7) % 16, (n * 5 + 3) % 16:
            m = n ^ (1 << bit)
            ctx.expect(
                not (ways[0] == A(free_style=m)) and ways[0] != A(free_style=m),
                "different addresses %04x and %04x are equal" % (n, m),
            )
            ctx.expect(
                not (a == A(free_style=m)) and not (ways[0] == k.Address(m)) and a != A(free_style=m),
                "different addresses %04x and %04x of two kinds are equal" % (n, m),
            )
            ctx.expect(
                a != k.Address(m) and not (a == k.Address(m)),
                "different addresses %04x %04x equal" % (n, m),
            )
        ctx.see("address", n)
    ctx.event("addresses", len(ctx.distinct.get("address", ())))
    for i, rng in ctx.cases("edit", ctx.more(3000, 50000)):
        n = rng.getrandbits(16)
        g = A(free_style=n)
        where = rng.choice(["sub", "middle", "main", "sub2", "main2"])
        if where == "sub":
            v = rng.getrandbits(8)
            g.three_level_style.sub = v
            want = (n & 0xFF00) | v
        elif where == "middle":
            v = rng.getrandbits(3)
            g.three_level_style.middle = v
            want = (n & 0xF8FF) | v << 8
        elif where == "main":
            v = rng.getrandbits(5)
            g.three_level_style.main = v
            want = (n & 0x07FF) | v << 11
        elif where == "sub2":
            v = rng.getrandbits(11)
            g.two_level_style.sub = v
            want = (n & 0xF800) | v
        else:
            v = rng.getrandbits(5)
            g.two_level_style.main = v
            want = (n & 0x07FF) | v << 11
        ctx.event("edit", n, where, v, g.free_style)
        ctx.expect(g.free_style == want, "%s=%d of %04x gives %04x" % (where, v, n, g.free_style))
        ctx.see("edit", n, where, v)
    ctx.exhaustive.append("all 65536 group addresses in the three notations")
    ctx.floor(events__edit=1000)


# --------------------------------------------------------------------------- #
CODED = [t for t in spec.TYPES.values() if t.kind == "fields"]


def words(ctx, t, rng, n):
    if t.bits <= 8:
        return range(256)
    base = [0, 0xFFFFFFFF, 0xAAAAAAAA, 0x55555555] + [1 << i for i in range(32)]
    return base + [rng.getrandbits(32) for _ in range(n)]


def read_field(d, t, name):
    """(raw, label) of a field as its user reads it."""
    v = getattr(d, name)
    f = t.fields[name]
    if f.names is None:
        return int(v), None
    return int(v), v.name


def V03(ctx):
    """Coded datapoints: the documented bit layout, field by field."""
    ctx.rule = (
        "every word of the 1 octet types and boundary/random words of the 32 bit "
        "types; each documented field read, then set to every (or random) value, "
        "with the whole word compared before and after; non-trivial: distinct "
        "(type, word, field, value)"
    )
    for t in CODED:
        for w in ctx.sweep("read/" + t.name, words(ctx, t, ctx.rng("w", t.name), ctx.scale(300, 20000))):
            d = kit.dpt(t.name, w)
            ctx.event("read", t.name, w)
            for name, f in t.fields.items():
                want = f.of(w)
                if f.names is not None and want not in f.by_value:
                    o = call(getattr, d, name)
                    ctx.expect(
                        not o.ok or int(o.value) == want,
                        "%s.%s of %x reads %r" % (t.name, name, w, o),
                    )
                    ctx.count("undefined codes")
                    continue
                raw, label = read_field(d, t, name)
                ctx.expect(
                    raw == want, "%s.%s of word %x reads %d, not %d" % (t.name, name, w, raw, want)
                )
                if f.names is not None:
                    ctx.expect(
                        f.names.get(label) == want,
                        "%s.%s of word %x is named %r" % (t.name, name, w, label),
                    )
                ctx.see("read", t.name, name, w)
            full = 0xFFFFFFFF if t.bits > 8 else 0xFF
            ctx.expect(d.value == w & full, "reading changed %s %x" % (t.name, w))

        bases = {0, 0xFFFFFFFF, 0x5A5A5A5A, 0xA5A5A5A5}
        bases |= {ctx.rng("b", t.name, j).getrandbits(32) for j in range(ctx.scale(6, 100))}
        # one field alone, or all but one
        bases |= {f.put(0, f.mask) for f in t.fields.values()} if t.bits > 8 else set()
        bases |= {f.put(0xFFFFFFFF, 0) for f in t.fields.values()} if t.bits > 8 else set()
        full = 0xFFFFFFFF if t.bits > 8 else 0xFF
        items = [
            (b & full, name, v)
            for b in sorted(bases)
            for name, f in sorted(t.fields.items())
            for v in (sorted(f.names) if f.names else range(f.mask + 1))
        ]
        for b, name, v in ctx.sweep("set/" + t.name, items):
            f = t.fields[name]
            d = kit.dpt(t.name, b)
            setattr(d, name, v)
            code = f.names[v] if f.names else v
            ctx.event("set", t.name, "%x" % b, name, v, "%x" % d.value)
            ctx.expect(
                d.value == f.put(b, code) & full,
                "%s: setting %s=%r in %x gives %x, not %x"
                % (t.name, name, v, b, d.value, f.put(b, code) & full),
            )
            ctx.see("set", t.name, name, v, b)
            if f.names:
                o = call(setattr, d, name, "no such name")
                ctx.expect(
                    not o.ok and d.value == f.put(b, code) & full,
                    "%s.%s accepted an unknown name" % (t.name, name),
                )
        # the same fields, and the ones without a name of their own, as bits
        more = dict(t.fields, **spec.BITS.get(t.name, {}))
        for b in ctx.sweep("bits/" + t.name, sorted(bases)):
            b &= full
            for name, f in sorted(more.items()):
                d = kit.dpt(t.name, b)
                got = getattr(d.bits, name)
                ctx.expect(got == f.of(b), "%s.bits.%s of %x reads %r" % (t.name, name, b, got))
                v = (f.of(b) * 7 + 3) & f.mask
                setattr(d.bits, name, v)
                ctx.event("bits", t.name, name, b, v)
                ctx.expect(
                    d.value == f.put(b, v) & full,
                    "%s: setting bits.%s=%d in %x gives %x" % (t.name, name, v, b, d.value),
                )
    # the measured temperature of a climate report: tenths of a degree in 9 bits
    bits = spec.REPORT_TEMPERATURE_MASK
    alone = [f.put(0, f.mask) for f in spec.TYPES["DPTInfoClimaReport"].fields.values()]
    for raw in ctx.sweep("temperature", range(512)):
        for b in [0, 0xFFFFFFFF, 0x12345678] + alone + [0xFFFFFFFF ^ x for x in alone]:
            d = kit.dpt("DPTInfoClimaReport", (b & ~bits) | raw)
            ctx.expect(
                abs(d.temperatura - raw / 10) < 1e-9,
                "temperature code %d reads %r" % (raw, d.temperatura),
            )
            d = kit.dpt("DPTInfoClimaReport", b)
            d.temperatura = raw / 10
            got = d.value & bits
            ctx.event("temperature", raw, got)
            ctx.expect(
                got == raw and d.value & ~bits == b & ~bits,
                "temperature %.1f in %x gives %x" % (raw / 10, b, d.value),
            )
            ctx.see("temperature", raw, b)
    for v in ctx.sweep("brightness", range(256)):
        d = kit.dpt("DPT_Brightness", v)
        ctx.expect(d.value == v, "brightness %d reads %r" % (v, d.value))
    ctx.exhaustive.append("all words of the one octet types; every field value")
    ctx.floor(events__set=2000, events__read=2000)


# --------------------------------------------------------------------------- #
F16 = [t.name for t in spec.TYPES.values() if t.kind == "f16"]
F32 = [t.name for t in spec.TYPES.values() if t.kind == "f32"]


def f16_probe(ctx, name, value, start=None):
    d = dpt_new(name)
    if start is not None:
        d.value = start
    before = d.value
    o = call(d.encode, value)
    step = spec.f16_step(value)
    outside = value > spec.F16_MAX + step or value < spec.F16_MIN - step
    ctx.event("encode", name, value, "%04x" % d.value if o.ok else "refused")
    if not o.ok:
        ctx.expect(
            value > spec.F16_MAX or value < spec.F16_MIN,
            "%s refuses %r, which is in range: %r" % (name, value, o),
        )
        ctx.expect(d.value == before, "%s changed while refusing %r" % (name, value))
        ctx.count("refused")
        return
    ctx.expect(not outside, "%s accepts %r, which is out of range" % (name, value))
    got = d.decode()
    ref = spec.f16_value(d.value)
    ctx.expect(
        abs(got - ref) <= 1e-9 * max(1, abs(ref)),
        "%s word %04x decodes to %r, not %r" % (name, d.value, got, ref),
    )
    ctx.expect(
        abs(ref - value) <= step * (1 + 1e-6) + 1e-9,
        "%s: %r comes back as %r (word %04x), farther than %r"
        % (name, value, ref, d.value, step),
    )
    ctx.expect(ref == 0 or value == 0 or (ref > 0) == (value > 0),
               "%s: %r comes back as %r" % (name, value, ref))
    if start is not None:
        e = dpt_new(name)
        e.encode(value)
        ctx.expect(
            e.value == d.value,
            "%s: %r is encoded as %04x over %04x, as %04x over nothing" % (name, value, d.value, start, e.value),
        )
    ctx.see("encode", d.value)


def dpt_new(name):
    return kit.dpt_class(name)()


def V04(ctx):
    """2 octets float."""
    ctx.rule = (
        "all 65536 words decoded and re-encoded; decimal, random, boundary and out "
        "of range values encoded over every starting word class, compared with an "
        "independent two's complement reading; non-trivial: distinct encoded words"
    )
    step = ctx.scale(1, 1)
    for w in ctx.sweep("words", range(0, 65536, step)):
        d = kit.dpt("DPT_Float_16", w)
        v = d.decode()
        ref = spec.f16_value(w)
        ctx.expect(
            abs(v - ref) <= 1e-9 * max(1, abs(ref)),
            "word %04x decodes to %r, not %r" % (w, v, ref),
        )
        e = dpt_new("DPT_Float_16")
        o = call(e.encode, v)
        ctx.expect(o.ok, "%r, decoded from %04x, can not be encoded: %r" % (v, w, o))
        ctx.expect(
            abs(spec.f16_value(e.value) - ref) <= 1e-9 * max(1, abs(ref)),
            "%r, decoded from %04x, is encoded as %04x (%r)"
            % (v, w, e.value, spec.f16_value(e.value)),
        )
        ctx.see("word", w)
    ctx.event("words", len(ctx.distinct.get("word", ())))
    ctx.exhaustive.append("all 65536 words: decode, encode the result")
    for n in ctx.sweep("near zero", range(-4200, 4201)):
        f16_probe(ctx, "DPT_Value_Temp", n / 100)
        f16_probe(ctx, "DPT_Value_Temp", n / 1000, start=0xFFFF)
    for w in ctx.sweep("zero over a word", range(0, 0x10000, ctx.scale(17, 1))):
        f16_probe(ctx, "DPT_Value_Wsp", 0, start=w)
        f16_probe(ctx, "DPT_Value_Lux", -0.001, start=w)
    edges = []
    for e in range(16):
        for m in (1023, 1024, 2046, 2047, 2048, 2049):
            for eps in (-0.5, -0.01, 0, 0.01, 0.5):
                for sign in (1, -1):
                    edges.append(sign * (m * (1 << e) / 100.0 + eps * (1 << e) / 100.0))
    edges += [0.0, -0.0, 0, -0.004, 0.004, 1, -1, 670760, 670760.96, -671088.64, 671000,
              671500, -671500, 1e6, -1e6, 1e9, -1e9, 1e30, -1e30]
    for v in ctx.sweep("edges", edges):
        for name in F16:
            f16_probe(ctx, name, v)
            f16_probe(ctx, name, v, start=0x8FFF)
    for v in ctx.sweep("not numbers", [math.inf, -math.inf, math.nan]):
        d = kit.dpt("DPT_Float_16", 0x0C1A)
        o = call(d.encode, v)
        ctx.expect(not o.ok and d.value == 0x0C1A, "%r is encoded as %04x" % (v, d.value))
    for i, rng in ctx.cases("random", ctx.more(20000, 600000)):
        r = rng.random()
        if r < 0.4:
            v = round(rng.uniform(-300, 300), rng.choice([0, 1, 2]))
        elif r < 0.8:
            v = rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 5.83)
        else:
            v = rng.randrange(-671088, 670760)
        f16_probe(ctx, rng.choice(F16), v, start=rng.getrandbits(16))
    ctx.floor(events__encode=20000)


def V05(ctx):
    """4 octets float."""
    ctx.rule = (
        "boundary and random 32 bit words and values, compared bit for bit with "
        "IEEE 754 single precision; non-trivial: distinct words"
    )
    base = [0, 0x80000000, 0x3F800000, 0xBF800000, 0x7F7FFFFF, 0xFF7FFFFF, 1, 0x007FFFFF,
            0x00800000, 0x45C80000, 0x43FF8000, 0x7F800000, 0xFF800000]
    base += [1 << i for i in range(32)]
    for name in F32:
        for w in ctx.sweep("words/" + name, base):
            f32_probe(ctx, name, w)
        for i, rng in ctx.cases("random/" + name, ctx.more(20000, 300000)):
            f32_probe(ctx, name, rng.getrandbits(32))
            v = rng.choice([rng.uniform(-1e4, 1e4), rng.randrange(-10000, 10000),
                            rng.choice([-1, 1]) * 10 ** rng.uniform(-30, 30)])
            d = kit.dpt(name, rng.getrandbits(32))
            d.encode(v)
            ctx.event("encode", name, v, "%08x" % d.value)
            ctx.expect(
                d.value == spec.f32_word(v),
                "%s: %r is encoded as %08x, not %08x" % (name, v, d.value, spec.f32_word(v)),
            )
            ctx.expect(
                d.decode() == spec.f32_value(spec.f32_word(v)),
                "%s: %r comes back as %r" % (name, v, d.decode()),
            )
    ctx.floor(events__encode=20000)


def f32_probe(ctx, name, w):
    ref = spec.f32_value(w)
    d = kit.dpt(name, w)
    got = d.decode()
    ctx.event("decode", name, "%08x" % w)
    ctx.expect(
        got == ref or (math.isnan(got) and math.isnan(ref)),
        "%s word %08x decodes to %r, not %r" % (name, w, got, ref),
    )
    ctx.expect(d.value == w, "decoding changed the word %08x" % w)
    if not math.isnan(ref):
        e = dpt_new(name)
        e.encode(got)
        ctx.expect(e.value == w, "%s %08x comes back as %08x" % (name, w, e.value))
    ctx.see("word", w)


# --------------------------------------------------------------------------- #
def expected_description(t, w):
    if t.kind == "raw":
        return {"value": w & t.mask}
    if t.kind == "f16":
        return {"decoded_value": spec.f16_value(w)}
    if t.kind == "f32":
        return {"decoded_value": spec.f32_value(w)}
    out = {}
    for name, f in t.fields.items():
        v = f.of(w)
        if f.names is None:
            out[name] = v
        elif v in f.by_value:
            out[name] = f.by_value[v]
        else:
            return None
    if t.name == "DPTInfoClimaReport":
        out["temperatura"] = (w & spec.REPORT_TEMPERATURE_MASK) / 10
    return out


def same_description(a, b):
    if set(a) != set(b):
        return False
    for key, v in a.items():
        w = b[key]
        if isinstance(v, float) or isinstance(w, float):
            if isinstance(v, str) or isinstance(w, str):
                return False
            if not spec.close(v, w, 1e-9 * max(1.0, abs(v))):
                return False
        elif v != w:
            return False
    return True


def V06(ctx):
    """Descriptions as dictionaries."""
    ctx.rule = (
        "datapoints of every type with enumerated/random words described as "
        "dictionaries, rebuilt from them and described again, with partial "
        "dictionaries and shuffled keys; non-trivial: distinct (type, word)"
    )
    describe = DT.Description_Factory().make
    build = DT.DPT_Factory().make
    for t in spec.TYPES.values():
        rng = ctx.rng("words", t.name)
        if t.bits <= 8:
            ws = list(range(256))
        else:
            ws = [0, t.mask] + [1 << i for i in range(t.bits)]
            ws += [rng.getrandbits(t.bits) for _ in range(ctx.scale(400, 8000))]
        for w in ctx.sweep(t.name, ws):
            want = expected_description(t, w)
            if want is None or any(
                isinstance(v, float) and (math.isnan(v) or math.isinf(v)) for v in want.values()
            ):
                ctx.count("not describable")
                continue
            d = kit.dpt(t.name, w)
            name, got = describe(d)
            ctx.event("described", name, got)
            ctx.expect(
                name == t.name and same_description(got, want),
                "%s %x is described as %r %r, not %r" % (t.name, w, name, got, want),
            )
            for key, f in t.fields.items():
                if f.names is not None:
                    # an alias of the same code is as good a name
                    ctx.expect(isinstance(got[key], str), "%s is not a name: %r" % (key, got[key]))
            ctx.expect(
                d.value == (w if t.bits > 8 else w & 0xFF),
                "describing %s %x made it %x" % (t.name, w, d.value),
            )
            items = list(got.items())
            # what the caller does with a description, and what becomes of the object
            for key in list(got):
                got[key] = "changed"
            got["more"] = 1
            name, fresh = describe(d)
            ctx.expect(
                name == t.name and same_description(fresh, want),
                "%s %x is described again as %r, not %r" % (t.name, w, fresh, want),
            )
            got = fresh
            if rng.random() < 0.3:
                other = rng.choice(ws)
                now = expected_description(t, other)
                if now is not None and not any(
                    isinstance(v, float) and (math.isnan(v) or math.isinf(v)) for v in now.values()
                ):
                    e = kit.dpt(t.name, w)
                    describe(e), repr(e)
                    e.value = other
                    name, said = describe(e)
                    ctx.expect(
                        name == t.name and same_description(said, now),
                        "%s changed from %x to %x is described as %r" % (t.name, w, other, said),
                    )
                    text = repr(e)
                    ctx.expect(
                        all(key in text and str(v) in text for key, v in said.items()),
                        "%s changed from %x to %x shows as %r" % (t.name, w, other, text),
                    )
                    ctx.count("described after a change")
            rng.shuffle(items)
            given = dict(items)
            e = build(name, given)
            ctx.expect(
                list(given.items()) == items, "building %s changed its description" % t.name
            )
            ctx.expect(type(e).__name__ == t.name, "%s rebuilt as %s" % (t.name, type(e)))
            again = describe(e)
            ctx.expect(
                again[0] == name and same_description(again[1], got),
                "%s %r is rebuilt as %r" % (name, got, again),
            )
            if t.kind in ("raw", "f32"):
                ctx.expect(e.value == d.value, "%s %x rebuilt as %x" % (name, w, e.value))
            if t.kind == "fields" and t.fields:
                part = dict(items[: rng.randrange(len(items) + 1)])
                e = build(name, part)
                full = describe(e)[1]
                zero = expected_description(t, 0)
                want2 = dict(zero, **part)
                ctx.expect(
                    same_description(full, want2),
                    "%s from %r is %r" % (name, part, full),
                )
            text = repr(d)
            ctx.expect(
                t.name in text and all(key in text and str(v) in text for key, v in got.items()),
                "%s %r shows as %r" % (t.name, got, text),
            )
            ctx.see("described", t.name, w)
        o = call(build, t.name, {"decoded_value": 1.0} if t.kind in ("f16", "f32") else {})
        ctx.expect(o.ok, "%s can not be built: %r" % (t.name, o))
        for wrong in (t.name + "x", t.name[:-1], t.name.lower() + "_", "x" + t.name):
            if wrong not in spec.TYPES:
                o = call(build, wrong, {})
                ctx.expect(not o.ok, "the unknown type %s is built: %r" % (wrong, o))
    ctx.floor(**{"events/described": 3000, "described after a change": 500})
