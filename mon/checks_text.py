"""What the messages show of themselves: clients and examples log them."""

import re

import knx_stack as k

from . import kit, spec
from .core import call

APP, IP = k.layer.application, k.knxnet_ip

# the message classes by their kind, with what each holds
GROUP_REQ = {"write": ("asap", "dpt"), "read": ("asap",)}
HEADER = ("object_index", "property_id", "number_of_elements", "start_index")
LABELS = {
    "addr_control_endpoint": "control endpoint", "port_control_endpoint": "control endpoint",
    "addr_data_endpoint": "data endpoint", "port_data_endpoint": "data endpoint",
}


def kinds():
    """kind -> (class, fields)"""
    out = {}
    for op in ("read", "write", "response"):
        for svc in ("ind", "con"):
            m = getattr(getattr(APP, "a_group_value_" + op), svc)
            out["GroupValue%s%s" % (op.title(), svc.title())] = (
                m.Msg, ("asap", "dpt") + (("status",) if svc == "con" else ()))
            m = getattr(getattr(APP, "a_property_value_" + op), svc)
            out["PropertyValue%s%s" % (op.title(), svc.title())] = (
                m.Msg,
                ("asap",) + HEADER + (("data",) if op != "read" else ())
                + (("status",) if svc == "con" else ()))
    for op in ("read", "write"):
        m = getattr(APP, "a_group_value_" + op).req
        out["GroupValue%sReq" % op.title()] = (m.Msg, GROUP_REQ[op])
        m = getattr(APP, "a_property_value_" + op).req
        out["PropertyValue%sReq" % op.title()] = (
            m.Msg, ("asap",) + HEADER + (("data",) if op == "write" else ()))
    core, tun = IP.core, IP.tunneling
    out["SearchReq"] = (core.search.req.Msg, ("addr", "port"))
    out["SearchRes"] = (core.search.res.Msg, ("ip", "port", "individual_address"))
    both = ("addr_control_endpoint", "port_control_endpoint")
    out["ConnectReq"] = (
        core.connect.req.Msg, both + ("addr_data_endpoint", "port_data_endpoint"))
    out["ConnectRes"] = (core.connect.res.Msg, ("ip", "port", "individual_address", "status"))
    out["ConnectionstateReq"] = (core.connectionstate.req.Msg, both)
    out["ConnectionstateRes"] = (core.connectionstate.res.Msg, ("status",))
    out["DisconnectReq"] = (core.disconnect.req.Msg, both)
    out["DisconnectRes"] = (core.disconnect.res.Msg, ("communication_channel_id", "status"))
    out["TunnelingReq"] = (tun.req.Msg, ("sequence_counter", "status"))
    out["TunnelingAck"] = (tun.ack.Msg, ("sequence_counter", "status"))
    return out


def is_dpt(x):
    return type(x).__name__ in spec.TYPES


def enums(cls):
    return sorted({int(m) for m in cls})


def value(rng, kind, field):
    """A value for a field of a message: what the decoders put there."""
    if field == "asap":
        n = rng.choice([0, 1, 254, 255, 256, 65535, 70000, rng.randrange(1000), rng.randrange(100000)])
        name = rng.choice([None, None, "lamp", "asap %d" % rng.randrange(100), "a, b: c", "%s {}", " attic ", rng.choice("xyz") * rng.randrange(1, 400)])
        return kit.asap(n, name)
    if field == "dpt":
        while True:
            t = rng.choice(list(spec.TYPES.values()))
            d = kit.dpt(t.name, kit.random_word(rng, t))
            if call(repr, d).ok:
                return d
    if field == "data":
        return rng.randbytes(rng.choice([0, 1, 1, 2, 4, 10, rng.randrange(1, 31), rng.randrange(31, 250)])).hex().upper()
    if field in ("addr", "ip") or field.startswith("addr_"):
        return ".".join(str(rng.choice([0, 1, 10, 127, 128, 192, 255, rng.randrange(256)])) for _ in range(4))
    if field == "port" or field.startswith("port_"):
        return rng.choice([0, 1, 255, 256, 3671, 32767, 32768, 65535, rng.randrange(1, 65536)])
    if field == "individual_address":
        return k.Address(rng.choice([0, 1, 255, 256, 32767, 32768, 65535, rng.randrange(65536)]))
    if field == "object_index" or field == "property_id" or field in (
        "communication_channel_id", "sequence_counter"
    ):
        return rng.choice([0, 1, 127, 128, 254, 255, rng.randrange(256)])
    if field == "number_of_elements":
        return rng.randrange(16)
    if field == "start_index":
        return rng.choice([0, 1, 255, 256, 2047, 2048, 4095, rng.randrange(4096)])
    assert field == "status", field
    cls = {
        "ConnectRes": IP.core.connect.res.Status,
        "ConnectionstateRes": IP.core.connectionstate.res.Status,
    }.get(kind) or (IP.ErrorCodes if kind[0] in "CDT" else k.layer.link.ConfirmFlag)
    return cls(rng.choice(enums(cls)))


def plain(x):
    """Something comparable of a field."""
    if isinstance(x, k.ASAP):
        return ("asap", x.value)
    if is_dpt(x):
        return (type(x).__name__, kit.word_of(x))
    if isinstance(x, k.Address):
        return ("address", x.free_style)
    return str(x) if isinstance(x, (str, list)) else int(x)


NUMBER = re.compile(r"0[xX][0-9A-Fa-f]+|\d+(?:\.\d+)+|\d+")


def words(field):
    return (LABELS.get(field) or field.replace("_", " ")).split(" ")


def shown(text, kind, m, fields):
    """What is wrong with the text of a message of this kind, or None."""
    if re.sub("[^a-z]", "", text.lower()).find(kind.lower()) != 0:
        return "does not start with its kind %s" % kind
    own = {}  # texts shown by what is inside, judged for themselves
    rest = text
    for f in sorted(fields, key=lambda f: (f == "asap", f == "data", f)):
        x = getattr(m, f)
        if isinstance(x, k.ASAP) or is_dpt(x):
            own[f] = str(x)
            if own[f] not in rest:
                return "does not show its %s, %s" % (f, own[f])
            if f == "asap" and str(x.value) not in NUMBER.findall(own[f]):
                return "does not show the number of its access point %d" % x.value
            label = re.search(r"\b%s\b\W*(?=%s)" % (f, re.escape(own[f])), rest, re.I)
            start = label.end() if label else rest.rfind(own[f])
            rest = rest[:start] + "@" + rest[start + len(own[f]):]
        elif f == "data":
            octets = r"(?<![0-9A-Fa-f])%s(?![0-9A-Fa-f])" % x
            if not re.search(octets, rest, re.I):
                return "does not show its data %s" % x
            rest = re.sub(octets, " @ ", rest, count=1, flags=re.I)
    # every other field: in the part of the text its label begins, or anywhere
    at = {}
    for f in fields:
        if f not in own and f != "data":
            hit = re.search(r"\b" + r"[ _]".join(words(f)) + r"\b", rest, re.I)
            if hit:
                at[f] = hit.end()
    starts = sorted(set(at.values()))
    for f in fields:
        if f in own or f == "data":
            continue
        part = rest
        if f in at:
            after = [s for s in starts if s > at[f]]
            part = rest[at[f]: after[0] if after else len(rest)]
        x = getattr(m, f)
        tokens = NUMBER.findall(part)
        if isinstance(x, str):
            good = x in tokens
        else:
            n = x.free_style if isinstance(x, k.Address) else int(x)
            good = any(
                t.lower().startswith("0x") and int(t, 16) == n or t == str(n) for t in tokens
            ) or getattr(x, "name", "?") in part
        if not good:
            return "does not show its %s, %s" % (f, x)
    return None


def R11(ctx):
    """The texts of messages."""
    ctx.rule = (
        "messages of every kind made with random and extreme fields, and all those "
        "decoded from random frames on USB and in tunnels, shown and read back; each "
        "shown again, and beside one which differs in one field; non-trivial: distinct "
        "(kind, fields)"
    )
    table = kinds()
    back = {cls: kind for kind, (cls, _) in table.items()}

    def judge(m, kind):
        fields = table[kind][1]
        before = [plain(getattr(m, f)) for f in fields]
        text = str(m)
        ctx.event("text", text)
        wrong = shown(text, kind, m, fields)
        ctx.expect(wrong is None, "the text %r of %s %r %s" % (text, kind, dict(zip(fields, before)), wrong))
        ctx.expect(
            repr(m) == text and "%s" % (m,) == text and "{}".format(m) == text,
            "%r is shown as %s and as %s" % (text, repr(m), "%s" % (m,)),
        )
        ctx.expect(
            [plain(getattr(m, f)) for f in fields] == before, "showing %r changed it" % text
        )
        ctx.see("shown", kind, tuple(before))
        ctx.count("kinds/" + kind)
        return text

    for kind, (cls, fields) in table.items():
        for i, rng in ctx.cases(kind, ctx.scale(150, 3000)):
            given = {f: value(rng, kind, f) for f in fields}
            m = cls(**given)
            for f in fields:
                ctx.expect(
                    plain(getattr(m, f)) == plain(given[f]), "%s holds %r as %s" % (kind, m, f)
                )
            text = judge(m, kind)
            f = rng.choice(fields)
            for _ in range(8):
                other = value(rng, kind, f)
                if plain(other) != plain(given[f]):
                    twin = cls(**dict(given, **{f: other}))
                    again = judge(twin, kind)
                    if is_dpt(other):
                        # values the description does not tell apart
                        differ = repr(other) != repr(given[f])
                    else:
                        differ = True
                    ctx.expect(
                        (again != text) == differ,
                        "%s with %s %r and with %r both show %r" % (kind, f, given[f], other, text),
                    )
                    ctx.expect(str(m) == text, "%r shows itself as %s later" % (text, m))
                    ctx.count("twins")
                    break
            if "data" in fields:  # none, and what might pass for none
                texts = [
                    judge(cls(**dict(given, data=d)), kind)
                    for d in ("", "00", "0000", "FF", rng.randbytes(1).hex().upper())
                ]
                ctx.expect(
                    len(set(texts)) in (4, 5) and texts[0] not in texts[1:],
                    "%s with other data, or none, shows %r" % (kind, texts),
                )

    for i, rng in ctx.cases("decoded", ctx.more(600, 20000)):
        medium = "usb" if i % 2 else "ip"
        t = kit.random_tables(rng)
        s = kit.Stack(t, medium, names=i % 3 == 0)
        for _ in range(6):
            svc = rng.choice(["ind", "con"])
            typed = [a for a in t.types if t.assoc.get(a)]
            if rng.random() < 0.6 and typed:
                a = rng.choice(typed)
                d = spec.TYPES[t.types[a]]
                dst = rng.choice(t.assoc[a])
                cemi = kit.group_frame(
                    rng, t, svc, dst, d, rng.choice(["read", "write", "response"]),
                    kit.random_word(rng, d), rng.randrange(2),
                )
            else:
                cemi = kit.property_frame(rng, t, svc, rng.choice(["read", "write", "response"]))
            o = call(k.decode_msg, s.state, s.to_msg(s.wrap(cemi)))
            if not o.ok:
                ctx.count("refused")
                continue
            for m in o.value:
                kind = back.get(type(m))
                if kind is None:
                    ctx.count("of another kind")
                    continue
                if "data" in table[kind][1] and not m.data:
                    ctx.count("without data")
                if hasattr(m, "dpt") and (m.dpt is None or not call(repr, m.dpt).ok):
                    ctx.count("not describable")
                    continue
                judge(m, kind)
                ctx.count("decoded")
                if kind == "TunnelingReq":
                    k.encode_msg(s.state, IP.tunneling.ack.Msg(m.sequence_counter, m.status))
    floors = {"kinds/" + kind: 120 for kind in table}
    ctx.floor(**dict(floors, decoded=1500, twins=1500))
