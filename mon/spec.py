"""An independent executable statement of what the stack must do.

Nothing here imports knx_stack. It is written from the KNX frame formats and from
the documentation of the stack, over plain ints, bytes and tuples.
"""

import math
import struct

from .core import Violation

# --------------------------------------------------------------------------- #
# datapoint types


class Field:
    def __init__(self, shift, width, names=None, get=None):
        self.shift, self.width = shift, width
        self.mask = (1 << width) - 1
        self.names = names  # name -> int
        self.by_value = {}
        for name, v in (names or {}).items():
            self.by_value.setdefault(v, name)

    def of(self, word):
        return (word >> self.shift) & self.mask

    def put(self, word, v):
        return (word & ~(self.mask << self.shift)) | (v << self.shift)


class Type:
    def __init__(self, name, octets, bits, fields=(), kind="fields"):
        self.name = name
        self.octets = octets  # 0: carried in the APCI octet
        self.bits = bits
        self.mask = (1 << bits) - 1
        self.fields = dict(fields)
        self.kind = kind


FUNZ = {
    "off": 0,
    "forced_off": 1,
    "off_a_tempo": 2,
    "antigelo": 3,
    "riduzione_notturna": 4,
    "riduzione_notturna_a_tempo": 5,
    "manuale": 6,
    "manuale_a_tempo": 7,
    "automatico": 8,
    "automatico_invio_temperatura_abilitato": 8,  # another name of the same
    "automatico_invio_temperatura_disabilitato": 14,
}
STAGIONE = {"inverno": 0, "estate": 1}

TYPES = {
    t.name: t
    for t in [
        Type("DPT_Switch", 0, 1, {"action": Field(0, 1, {"off": 0, "on": 1})}),
        Type("DPT_Info_Switch", 0, 1, {"action": Field(0, 1, {"off": 0, "on": 1})}),
        Type("DPT_Alarm", 0, 1, {"action": Field(0, 1, {"no_alarm": 0, "alarm": 1})}),
        Type("DPT_UpDown", 0, 1, {"direction": Field(0, 1, {"up": 0, "down": 1})}),
        Type("DPT_Start", 0, 1, {"action": Field(0, 1, {"stop": 0, "start": 1})}),
        Type(
            "DPT_Control_Dimming",
            0,
            4,
            {"step": Field(0, 3), "direction": Field(3, 1, {"down": 0, "up": 1})},
        ),
        Type(
            "DPTVimarScene",
            1,
            8,
            {
                "index": Field(0, 6),
                "command": Field(
                    6, 2, {"attiva": 0, "cancella": 1, "memorizza": 2, "identifica": 3}
                ),
            },
        ),
        Type(
            "DPT_SceneControl",
            1,
            8,
            {
                "number": Field(0, 6),
                "command": Field(7, 1, {"activate": 0, "learn": 1}),
            },
        ),
        Type("DPT_Brightness", 1, 8, kind="raw"),
        Type(
            "DPTSetupClima",
            4,
            32,
            {
                "temporizzazione": Field(0, 8),
                "setpoint": Field(8, 8),
                "differenziale": Field(16, 5),
                "variazione_setpoint": Field(21, 2),
                "unita_misura": Field(23, 1, {"celsius": 0, "farenheit": 1}),
                "funzionamento": Field(24, 4, FUNZ),
                "centralizzato": Field(28, 1),
                "stagione": Field(29, 1, STAGIONE),
                "terziario": Field(30, 1),
            },
        ),
        Type(
            "DPTInfoClimaReport",
            4,
            32,
            {
                "setpoint": Field(16, 8),
                "funzionamento": Field(24, 4, FUNZ),
                "stagione": Field(29, 1, STAGIONE),
            },
        ),
        Type("DPT_Float_16", 2, 16, kind="f16"),
        Type("DPT_Value_Wsp", 2, 16, kind="f16"),
        Type("DPT_Value_Temp", 2, 16, kind="f16"),
        Type("DPT_Value_Lux", 2, 16, kind="f16"),
        Type("DPT_Float_32", 4, 32, kind="f32"),
        Type("DPT_Value_Power", 4, 32, kind="f32"),
    ]
}
# fields which are there in the octets only (as .bits), besides the ones above
BITS = {
    "DPT_SceneControl": {"reserved": Field(6, 1)},
    "DPTSetupClima": {"riservato": Field(31, 1)},
    "DPTInfoClimaReport": {
        "temporizzazione": Field(9, 7),
        "centralizzato": Field(28, 1),
        "terziario": Field(30, 1),
        "stato_rele": Field(31, 1),
    },
}
# bits 0..8 of a climate report: the temperature in tenths of a degree
REPORT_TEMPERATURE_MASK = 0x1FF


def f16_decode(word):
    """KNX 2 octets float: sign and mantissa are one 12 bits two's complement."""
    m = word & 0x7FF
    if word & 0x8000:
        m -= 2048
    return m * (1 << ((word >> 11) & 15)), "hundredths"


def f16_value(word):
    return f16_decode(word)[0] / 100.0


F16_MAX = 2047 * 32768 / 100.0
F16_MIN = -2048 * 32768 / 100.0


def f16_step(value):
    """Resolution (in units) at this magnitude: that of the smallest exponent
    whose mantissa range reaches the value."""
    h = abs(value) * 100.0
    e = 0
    while h >= 2048 * (1 << e) and e < 15:
        e += 1
    return (1 << e) / 100.0


def f32_value(word):
    return struct.unpack(">f", struct.pack(">I", word))[0]


def f32_word(value):
    return struct.unpack(">I", struct.pack(">f", value))[0]


# --------------------------------------------------------------------------- #
# frames

REQ, IND, CON = 0x11, 0x29, 0x2E
READ, RESPONSE, WRITE = 0x000, 0x040, 0x080
PROP_READ, PROP_RESPONSE, PROP_WRITE = 0x3D5, 0x3D6, 0x3D7


def be(v, n):
    return int(v).to_bytes(n, "big")


def tpdu_group(apci, dpt, word):
    """TPCI/APCI octets and the data of a group service."""
    if dpt is None:  # a read carries nothing
        return be(apci, 2)
    if dpt.octets == 0:
        return be(apci | (word & 0x3F), 2)
    return be(apci, 2) + be(word & dpt.mask, dpt.octets)


def tpdu_property(apci, obj, prop, count, start, data=b""):
    return (
        be(apci, 2) + bytes([obj, prop]) + be((count << 12) | start, 2) + bytes(data)
    )


def cemi(code, dst, tpdu, group=True, src=0, ctrl1=0x96, ctrl2=None, info=b""):
    if ctrl2 is None:
        ctrl2 = 0xE0 if group else 0x60
    return (
        bytes([code, len(info)])
        + bytes(info)
        + bytes([ctrl1, ctrl2])
        + be(src, 2)
        + be(dst, 2)
        + bytes([len(tpdu) - 1])
        + bytes(tpdu)
    )


def usb(body, protocol=1, emi=3, pad=b"", manufacturer=0):
    """One KNX USB transfer report holding one cEMI frame."""
    inner = (
        bytes([0x00, 0x08])
        + be(len(body), 2)
        + bytes([protocol, emi])
        + be(manufacturer, 2)
        + bytes(body)
    )
    return bytes([0x01, 0x13, len(inner)]) + inner + bytes(pad)


def ip(service, body):
    return bytes([0x06, 0x10]) + be(service, 2) + be(len(body) + 6, 2) + bytes(body)


SEARCH_REQ, SEARCH_RES = 0x0201, 0x0202
CONNECT_REQ, CONNECT_RES = 0x0205, 0x0206
STATE_REQ, STATE_RES = 0x0207, 0x0208
DISCONNECT_REQ, DISCONNECT_RES = 0x0209, 0x020A
TUNNEL_REQ, TUNNEL_ACK = 0x0420, 0x0421


def tunnel_req(channel, seq, body, reserved=0):
    return ip(TUNNEL_REQ, bytes([4, channel, seq, reserved]) + bytes(body))


def tunnel_ack(channel, seq, status=0):
    return ip(TUNNEL_ACK, bytes([4, channel, seq, status]))


def hpai(addr, port):
    return bytes([8, 1]) + bytes(int(x) for x in addr.split(".")) + be(port, 2)


def connect_res(channel, status, addr="10.0.0.1", port=3671, ia=0xFFFF):
    return ip(
        CONNECT_RES,
        bytes([channel, status]) + hpai(addr, port) + bytes([4, 4]) + be(ia, 2),
    )


def refuse_res(status, channel=0):
    return ip(CONNECT_RES, bytes([channel, status]))


def state_res(channel, status):
    return ip(STATE_RES, bytes([channel, status]))


def disconnect_res(channel, status):
    return ip(DISCONNECT_RES, bytes([channel, status]))


def search_res(addr, port, ia, medium=2, status=0, rest=b""):
    dib = bytes([0x36, 1, medium, status]) + be(ia, 2) + bytes(rest)
    return ip(SEARCH_RES, hpai(addr, port) + dib)


class Bad(Violation):
    """Not a frame of this kind."""


def parse_usb(frame):
    """(protocol, emi, manufacturer, body) of an emitted USB report."""
    if len(frame) < 11 or frame[0] != 1 or frame[1] & 0x0F != 3:
        raise Bad("not a single-packet KNX report: %s" % frame.hex())
    if frame[2] != len(frame) - 3:
        raise Bad("data length %d, %d octets follow" % (frame[2], len(frame) - 3))
    if frame[3] != 0 or frame[4] != 8:
        raise Bad("protocol version/header length %s" % frame[3:5].hex())
    n = int.from_bytes(frame[5:7], "big")
    if n != len(frame) - 11:
        raise Bad("body length %d, %d octets follow" % (n, len(frame) - 11))
    return frame[7], frame[8], int.from_bytes(frame[9:11], "big"), frame[11:]


def parse_ip(frame):
    """(service, body) of an emitted KNXnet/IP frame."""
    if len(frame) < 6 or frame[0] != 6 or frame[1] != 0x10:
        raise Bad("not a KNXnet/IP header: %s" % frame.hex())
    n = int.from_bytes(frame[4:6], "big")
    if n != len(frame):
        raise Bad("total length %d of a %d octets frame" % (n, len(frame)))
    return int.from_bytes(frame[2:4], "big"), frame[6:]


def parse_tunnel(frame):
    """(channel, seq, reserved, body) of an emitted tunnelling request."""
    service, body = parse_ip(frame)
    if service != TUNNEL_REQ:
        raise Bad("service %04x is not a tunnelling request" % service)
    if len(body) < 4 or body[0] != 4:
        raise Bad("connection header %s" % body[:4].hex())
    return body[1], body[2], body[3], body[4:]


# --------------------------------------------------------------------------- #
# tables


class Tables:
    """What an observer knows about the configuration of a stack."""

    def __init__(self, ia, associations=(), types=(), max_size=255):
        self.ia = ia
        self.assoc = {0: []}  # asap -> ordered group addresses
        self.types = {}  # asap -> type name
        self.max_size = max_size
        self.preloaded = set()
        for asap, addr in associations:
            self.associate(asap, [addr])
        for asap, name in types:
            self.types[asap] = name

    def addresses(self):
        used = set(self.preloaded)
        for asap, addrs in self.assoc.items():
            used.update(addrs)
        return sorted(used)

    def fits(self, addrs):
        return len(set(self.addresses()) | set(addrs)) <= self.max_size

    def associate(self, asap, addrs):
        mine = self.assoc.setdefault(asap, [])
        for a in addrs:
            if a not in mine:
                mine.append(a)

    def can_disassociate(self, asap, addrs):
        if asap not in self.assoc:
            return False
        left = list(self.assoc[asap])
        for a in addrs:
            if a not in left:
                return False
            left.remove(a)
        return True

    def disassociate(self, asap, addrs):
        for a in addrs:
            self.assoc[asap].remove(a)

    def asaps_of(self, addr):
        return [asap for asap, addrs in self.assoc.items() if addr in addrs]

    def sending_address(self, asap):
        return (self.assoc.get(asap) or [None])[0]


UNSPECIFIED = ("unspecified",)


def decode_cemi(t, frame):
    """The messages a cEMI frame must be delivered as; a value may be None when
    the payload is not that of the configured datapoint type (unspecified)."""
    code, n = frame[0], frame[1]
    f = frame[2 + n:]
    if code not in (IND, CON):
        return []
    svc = "ind" if code == IND else "con"
    status = None if svc == "ind" else f[0] & 1
    group = bool(f[1] & 0x80)
    src = int.from_bytes(f[2:4], "big")
    dst = int.from_bytes(f[4:6], "big")
    tpci, apci, data = f[7] & 0xFC, int.from_bytes(f[7:9], "big") & 0x3FF, f[9:]
    if tpci != 0:
        return []
    if group:
        if dst == 0:
            return []
        if apci == READ:
            op = "read"
        elif apci & 0x3C0 == RESPONSE:
            op = "response"
        elif apci & 0x3C0 == WRITE:
            op = "write"
        else:
            return []
        out = []
        for asap in t.asaps_of(dst):
            if asap not in t.types:
                continue
            d = TYPES[t.types[asap]]
            if op == "read":
                word = 0 if not data else None
            elif d.octets == 0:
                word = (apci & d.mask) if not data else None
            else:
                word = int.from_bytes(data, "big") if len(data) == d.octets else None
            out.append(("group", op, svc, asap, d.name, word, status))
        return out
    mine = src == t.ia if svc == "ind" else dst == t.ia
    op = {PROP_READ: "read", PROP_RESPONSE: "response", PROP_WRITE: "write"}.get(apci)
    if not mine or op is None:
        return []
    if len(data) < 4:
        raise ValueError("short property service")
    word = int.from_bytes(data[2:4], "big")
    rest = data[4:].hex().upper() if op != "read" else None
    return [
        ("property", op, svc, 0, data[0], data[1], word >> 12, word & 0xFFF, rest, status)
    ]


def close(a, b, tol):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= tol
