"""Glue: build stacks of the real code from plain data, and look at what they say."""

import ctypes
import zlib

import knx_stack as k

from . import spec
from .core import Violation, call

APP = k.layer.application
MEDIA = {"usb": k.Medium.usb_hid, "ip": k.Medium.knxnet_ip, "tp": k.Medium.tp}


def G(n):
    return k.GroupAddress(free_style=n)


def asap(n, name=None):
    return k.ASAP(n, name) if name else k.ASAP(n)


def dpt_class(name):
    return getattr(k.datapointtypes, name)


def own_type(d):
    """A datapoint type as a user of the library defines it."""
    number = {1: ctypes.c_uint8, 2: ctypes.c_uint16, 4: ctypes.c_uint32}[d.octets or 1]
    bits = type("_" + d.name, (ctypes.LittleEndianStructure,), {"_fields_": [("all", number, d.bits)]})
    return type(
        d.name,
        (ctypes.Union, k.datapointtypes.DPT),
        {
            "length": k.datapointtypes.DPT.Length.A_BYTE_OR_MORE
            if d.octets
            else k.datapointtypes.DPT.Length.LESS_THAN_A_BYTE,
            "_fields_": [("bits", bits), ("value", number)],
        },
    )


def dpt(name, word):
    d = dpt_class(name)()
    d.value = word
    return d


def to_msg(data, cls=None):
    return (cls or k.Msg).make_from_str(bytes(data).hex())


def to_bytes(msg):
    """Octets of an emitted message, as its user gets them (its text form)."""
    return bytes.fromhex(str(msg))


class Stack:
    """A real stack and the reference tables describing it."""

    def __init__(self, tables, medium, names=False, bare=False, fresh=False, share=None):
        self.t = tables
        self.medium = medium
        if share is not None:  # the tables of another stack
            self.at, self.assoc, self.got = share.at, share.assoc, share.got
        else:
            self.fill(tables, names, bare)
        if medium == "ip":
            self.state = k.knxnet_ip.State(MEDIA["ip"], self.assoc, self.got)
            if not fresh:  # a session under way, some of them at their first frame
                n = zlib.crc32(repr((tables.ia, sorted(tables.assoc.items()))).encode())
                self.state.communication_channel_id = n & 255
                if n >> 24 & 3:
                    self.state.sequence_counter_local = n >> 8 & 255
                    self.state.sequence_counter_remote = n >> 16 & 255
        else:
            self.state = k.State(MEDIA[medium], self.assoc, self.got)

    def fill(self, tables, names, bare):
        self.at = k.AddressTable(k.Address(tables.ia), [], tables.max_size)
        # bare: made with nothing in, and filled afterwards
        self.assoc = k.AssociationTable(self.at) if bare else k.AssociationTable(self.at, [])
        for a, addrs in tables.assoc.items():
            if a or addrs:
                who = asap(a, names(a) if callable(names) else "asap number %d" % a if names else None)
                self.assoc.associate(who, [G(x) for x in addrs])
        types = {
            asap(a, names(a) if callable(names) else None): dpt_class(n)
            for a, n in tables.types.items()
        }
        self.got = k.GroupObjectTable() if bare else k.GroupObjectTable(types)
        if bare:
            for a, d in types.items():
                self.got.associate(a, d)

    def encode(self, msg):
        return call(k.encode_msg, self.state, msg)

    def encoded(self, msg):
        return to_bytes(k.encode_msg(self.state, msg))

    def decode(self, frame):
        return call(k.decode_msg, self.state, self.to_msg(frame))

    def to_msg(self, frame):
        return to_msg(frame, k.knxnet_ip.Msg if self.medium == "ip" else k.Msg)

    def wrap(self, cemi):
        """Frame a cEMI as the medium delivers it to a stack (in sequence)."""
        if self.medium == "usb":
            return spec.usb(cemi)
        return spec.tunnel_req(
            getattr(self.state, "communication_channel_id", 0),
            self.state.sequence_counter_remote,
            cemi,
        )

    def receive(self, cemi):
        """Decode a frame, acknowledging it on KNXnet/IP as a client does; the
        delivered application messages in abstract form."""
        msgs = k.decode_msg(self.state, self.to_msg(self.wrap(cemi)))
        if not isinstance(msgs, list):
            raise Violation("decoding did not give a list of messages: %r" % (msgs,))
        if self.medium == "ip":
            heads = [m for m in msgs if isinstance(m, k.knxnet_ip.tunneling.req.Msg)]
            if len(heads) != 1 or heads[0].status != 0:
                raise Violation(
                    "an in-sequence tunnelling request was not accepted: %r" % (msgs,)
                )
            k.encode_msg(
                self.state,
                k.knxnet_ip.tunneling.ack.Msg(heads[0].sequence_counter, heads[0].status),
            )
            msgs = [m for m in msgs if m is not heads[0]]
        return [abstract(m) for m in msgs]


_KIND = {}
for _op in ("read", "write", "response"):
    for _svc in ("ind", "con"):
        _KIND[getattr(getattr(APP, "a_group_value_" + _op), _svc).Msg] = (
            "group", _op, _svc,
        )
        _KIND[getattr(getattr(APP, "a_property_value_" + _op), _svc).Msg] = (
            "property", _op, _svc,
        )


def word_of(d):
    """The word a decoded datapoint stands for, without undefined bits."""
    t = spec.TYPES[type(d).__name__]
    return d.value & t.mask


def abstract(m):
    """A decoded message as the tuple the reference decoder uses."""
    kind = _KIND.get(type(m))
    if kind is None:
        return ("other", type(m).__name__, repr(m))
    status = int(m.status) if kind[2] == "con" else None
    if kind[0] == "group":
        return kind + (m.asap.value, type(m.dpt).__name__, word_of(m.dpt), status)
    data = None
    if kind[1] != "read":
        data = str(m.data).upper()
    return kind + (
        m.asap.value,
        int(m.object_index),
        int(m.property_id),
        int(m.number_of_elements),
        int(m.start_index),
        data,
        status,
    )


def same(expected, got):
    """Compare as multisets; None in an expected group value is unspecified."""
    if len(expected) != len(got):
        return False
    left = list(got)
    for e in sorted(expected, key=lambda x: (x[0] == "group" and x[5] is None)):
        for i, g in enumerate(left):
            if e == g or (
                e[0] == "group"
                and e[5] is None
                and g[:5] == e[:5]
                and g[6:] == e[6:]
            ):
                del left[i]
                break
        else:
            return False
    return True


# --------------------------------------------------------------------------- #
# random configurations and frames


def random_tables(rng, n_asaps=None, max_addr=4, max_size=255, types=None, ia=None):
    """A configuration: shared addresses, several addresses per ASAP, ASAPs
    without a type, types without an ASAP."""
    n = n_asaps or rng.choice([1, 2, 3, 4, 6, 9, 14])
    pool = set()
    style = rng.random()
    while len(pool) < max(2, n + 2):
        if style < 0.3:
            pool.add(rng.randrange(1, 0x10000))
        elif style < 0.6:  # close neighbours and byte boundaries
            base = rng.choice([1, 0x00FE, 0x0100, 0x07FF, 0x0800, 0x7FFF, 0xFFF0])
            pool.add(min(0xFFFF, base + rng.randrange(16)) or 1)
        else:
            pool.add(
                (rng.randrange(32) << 11 | rng.randrange(8) << 8 | rng.randrange(256))
                or 1
            )
    pool = sorted(pool)
    if ia is None:
        ia = rng.choice([rng.randrange(1, 0x10000), 0x1001, 0x102C, 0xFFFF, 0x0001])
        if rng.random() < 0.25:
            ia = rng.choice(pool)  # the two address spaces overlap numerically
    t = spec.Tables(ia, max_size=max_size)
    values = rng.sample(range(1, 40), n)
    if rng.random() < 0.2:
        values[0] = rng.choice([255, 256, 1000, 65535])
    for v in values:
        k_ = rng.choice([1, 1, 1, 2, 3, max_addr])
        t.associate(v, rng.sample(pool, min(k_, len(pool))))
    names = types or sorted(spec.TYPES)
    order = list(values)
    rng.shuffle(order)
    for v in order:
        if rng.random() < 0.92:
            t.types[v] = rng.choice(names)
    if rng.random() < 0.3:
        t.types[rng.choice([77, 78, 79])] = rng.choice(names)
    return t


def large_tables(rng, types=None, max_size=65535):
    """A big installation: hundreds of addresses, of access points, of addresses of
    one, or of access points of one."""
    shape = rng.choice(["addresses", "one has many", "many have one", "all"])
    pool = rng.sample(range(1, 0x10000), rng.choice([257, 300, 520]))
    if rng.random() < 0.3:
        base = rng.choice([1, 0x0900, 0xF000])
        pool = list(range(base, base + 300))
    t = spec.Tables(rng.choice([rng.randrange(1, 0x10000), rng.choice(pool)]), max_size=max_size)
    n = {"addresses": 40, "one has many": 5, "many have one": 300, "all": 260}[shape]
    values = rng.sample(range(1, 600), n)
    for i in range(0, n, 7):
        values[i] = rng.choice([255, 256, 65535, 65536, 70000, 1 << 31, rng.randrange(600, 100000)]) + i
    values = list(dict.fromkeys(values))
    for v in values:
        t.associate(v, rng.sample(pool, rng.choice([1, 1, 2, 5])))
    if shape in ("one has many", "all"):
        t.associate(rng.choice(values), rng.sample(pool, len(pool) - 3))
    if shape in ("many have one", "all"):
        for v in values:
            t.associate(v, [pool[0]])
    if shape == "addresses":
        for i, x in enumerate(pool):
            t.associate(values[i % len(values)], [x])
    order = list(values)
    rng.shuffle(order)
    for v in order:
        if rng.random() < 0.95:
            t.types[v] = rng.choice(types or sorted(spec.TYPES))
    return t


def crowded_stack(rng, medium, n=4200):
    """A stack whose address table holds thousands of addresses, some of them in use."""
    pool = sorted(rng.sample(range(1, 0x10000), n))
    t = spec.Tables(rng.choice([0x1001, pool[-1]]), max_size=n)
    at = k.AddressTable(k.Address(t.ia), [G(x) for x in pool], n)
    t.preloaded = set(pool)
    assoc = k.AssociationTable(at, [])
    for j in [0, 1, 254, 255, 256, 511, 4094, 4095, 4096, n - 1] + rng.sample(range(n), 6):
        a, name = rng.randrange(1, 300), rng.choice(sorted(spec.TYPES))
        t.associate(a, [pool[j]])
        t.types[a] = name
        assoc.associate(asap(a), [G(pool[j])])
    got = k.GroupObjectTable({asap(a): dpt_class(x) for a, x in t.types.items()})
    share = type("Share", (), {"at": at, "assoc": assoc, "got": got})
    return Stack(t, medium, share=share)


def random_word(rng, d):
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, 1, d.mask, d.mask >> 1, (d.mask >> 1) + 1]) & d.mask
    if r < 0.35:
        return 1 << rng.randrange(d.bits)
    return rng.getrandbits(d.bits)


CODES = {"ind": spec.IND, "con": spec.CON}
OPS = {"read": spec.READ, "response": spec.RESPONSE, "write": spec.WRITE}
PROPS = {
    "read": spec.PROP_READ,
    "response": spec.PROP_RESPONSE,
    "write": spec.PROP_WRITE,
}


def random_ctrl1(rng, confirm=None):
    """Standard frame, broadcast; any repeat, priority, acknowledge, confirm bits."""
    c = 0x90 | (rng.getrandbits(8) & 0x2F)
    if confirm is not None:
        c = (c & 0xFE) | confirm
    return c


def random_info(rng, big=False):
    """Additional information; in a tunnel there is room for more."""
    if rng.random() < 0.8:
        return b""
    if big and rng.random() < 0.5:
        return rng.randbytes(rng.choice([32, 63, 64, 127, 128, 200, 253, 254, rng.randrange(255)]))
    return bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 2, 3, 5, 8, 12, 16, 17, 24, 31])))


def number(rng, t, *others):
    """An address: any, one that is used elsewhere, or a border."""
    if rng.random() < 0.6:
        return rng.randrange(0x10000)
    return rng.choice(
        list(others)
        + [t.ia, t.ia ^ 1, 0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF]
        + [x for a in t.assoc.values() for x in a][:20]
    )


def group_frame(rng, t, svc, dst, d, op, word, confirm=None, big=False):
    ctrl2 = 0x80 | (rng.randrange(8) << 4)
    return spec.cemi(
        CODES[svc],
        dst,
        spec.tpdu_group(OPS[op], d if op != "read" else None, word),
        src=number(rng, t, dst, dst),
        ctrl1=random_ctrl1(rng, confirm),
        ctrl2=ctrl2,
        info=random_info(rng, big),
    )


def property_data(rng, most=30):
    """Data of a property write: mostly what fits in a standard device's frame."""
    if most > 30 and rng.random() < 0.2:
        return rng.randbytes(rng.choice([most, most - 1, rng.randrange(31, most)]))
    return rng.randbytes(rng.choice([1, 1, 2, 3, 4, 9, 10, 11, 12, rng.randrange(1, 31)]))


def property_frame(rng, t, svc, op, mine=True, data=None, fields=None, big=False):
    other = number(rng, t)
    peer = t.ia
    if not mine:
        peer = rng.choice([t.ia ^ 1, t.ia ^ 0x100, t.ia ^ 0x8000, (t.ia + 1) & 0xFFFF])
    src, dst = (peer, other) if svc == "ind" else (other, peer)
    obj, prop, count, start = fields or (
        rng.choice([0, x]) if rng.random() < 0.15 else x
        for x in (rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(4), rng.getrandbits(12))
    )
    if data is None:
        data = b"" if op == "read" else rng.randbytes(
            rng.choice([0, 1, 1, 2, 4, 10, rng.randrange(rng.choice([16, 38]))])
        )
        if big and data and rng.random() < 0.2:
            data = rng.randbytes(rng.choice([39, 64, 128, 200, 248, 249, rng.randrange(250)]))
        if rng.random() < 0.1:  # which ends in zeros
            n = rng.randrange(len(data) + 1)
            data = data[:n] + bytes(len(data) - n)
    info = random_info(rng, big)
    if not big:  # within a report of 64 octets
        info = info[:64 - 26 - len(data)]
    return spec.cemi(
        CODES[svc],
        dst,
        spec.tpdu_property(PROPS[op], obj, prop, count, start, data),
        group=False,
        src=src,
        ctrl1=random_ctrl1(rng),
        ctrl2=rng.randrange(8) << 4,
        info=info,
    )


def some_frame(rng, t):
    """Any application frame of the bus, mostly one which concerns the stack."""
    svc = rng.choice(["ind", "con"])
    if rng.random() < 0.25:
        return property_frame(rng, t, svc, rng.choice(["read", "write", "response"]), rng.random() < 0.7)
    x = rng.choice(t.addresses() or [1])
    if rng.random() < 0.15:
        x = number(rng, t) or 1
    known = [t.types[a] for a in t.asaps_of(x) if a in t.types]
    d = spec.TYPES[rng.choice(known or sorted(spec.TYPES))]
    op = rng.choice(["read", "write", "response"])
    return group_frame(rng, t, svc, x, d, op, random_word(rng, d))


def other_frame(rng, t):
    """A frame of the transport layer's connections, of a kind not used, or cut off."""
    dst = rng.choice((t.addresses() or [1]) + [t.ia, t.ia ^ 1, 0, number(rng, t)])
    tpci = rng.choice([0x80, 0x81, 0xC2, 0xC3, 0x84, 0x43, 0x47, 0x04, 0x00, 0x03, rng.getrandbits(8)])
    f = spec.cemi(
        CODES[rng.choice(["ind", "con"])], dst,
        bytes([tpci]) + rng.randbytes(rng.choice([0, 1, 2, 5])),
        group=rng.random() < 0.5, src=rng.choice([t.ia, t.ia ^ 1, 0x1105]),
    )
    return f if rng.random() < 0.8 else f[: rng.randrange(2, len(f) + 1)]


def live(rng, s):
    """Something of the bus is received: what is sent does not depend on it."""
    if rng.random() < 0.25:
        f = other_frame(rng, s.t)
        if s.medium != "tp":
            s.decode(s.wrap(f))
        elif f[1] == 0:
            call(lambda: setattr(s.state, "ldata", k.layer.link.L_Data.make_from(to_msg(f[2:]))[0]))
        return f
    if s.medium == "tp":  # decodes nothing by itself: as its upper half would
        f = some_frame(rng, s.t)
        if f[1] == 0:
            s.state.ldata = k.layer.link.L_Data.make_from(to_msg(f[2:]))[0]
        return f
    f = some_frame(rng, s.t)
    s.decode(s.wrap(f))
    return f


def write_req(asap_, d):
    return APP.a_group_value_write.req.Msg(asap=asap_, dpt=d)


def write_ind(asap_, d):
    return APP.a_group_value_write.ind.Msg(asap=asap_, dpt=d)


def read_req(asap_):
    return APP.a_group_value_read.req.Msg(asap=asap_)


def prop_read_req(asap_, f):
    return APP.a_property_value_read.req.Msg(
        asap=asap_,
        object_index=f[0],
        property_id=f[1],
        number_of_elements=f[2],
        start_index=f[3],
    )


def prop_write_req(asap_, f, data):
    return APP.a_property_value_write.req.Msg(
        asap=asap_,
        object_index=f[0],
        property_id=f[1],
        number_of_elements=f[2],
        start_index=f[3],
        data=bytes(data).hex().upper(),
    )
