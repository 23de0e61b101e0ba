"""Address table, association table, group object table: histories against a model."""

import re

import knx_stack as k

from . import age, kit, spec
from .core import call

G = kit.G


class Boom(Exception):
    """Raised by a caller's own iterable, half way through."""


# --------------------------------------------------------------------------- #
def pool_of(rng, n):
    out = set()
    base = rng.choice([1, 0xF8, 0x7F8, 0x800, 0xFFE0, 0x1000])
    while len(out) < n:
        out.add(
            rng.choice(
                [rng.randrange(1, 0x10000), base + rng.randrange(16), rng.randrange(1, 9)]
            )
            & 0xFFFF
        )
        out.discard(0)
    return sorted(out)


def check_address_table(ctx, at, ia, model, size, probes, what):
    got = [a.free_style for a in at.addresses]
    ctx.expect(got == model, "%s: addresses are %s, not %s" % (what, hexes(got), hexes(model)))
    ctx.expect(
        list(at.tsaps) == list(range(len(model) + 1)),
        "%s: tsaps are %r for %d addresses" % (what, at.tsaps, len(model)),
    )
    ctx.expect(at.max_size == size, "%s: max size is %r" % (what, at.max_size))
    ctx.expect(
        at.individual_address.free_style == ia and at.get_address(0).free_style == ia,
        "%s: individual address is %r" % (what, at.individual_address),
    )
    for i, a in enumerate(model):
        ctx.expect(
            at.get_address(i + 1).free_style == a and at.get_tsap(G(a)) == i + 1,
            "%s: entry %d is %r, and %04x is at %r"
            % (what, i + 1, at.get_address(i + 1), a, at.get_tsap(G(a))),
        )
    ctx.expect(
        not call(at.get_address, len(model) + 1).ok,
        "%s: there is an address past the last tsap" % what,
    )
    for p in probes:
        if p not in model:
            want = 0 if p == ia else None
            ctx.expect(
                at.get_tsap(G(p)) == want,
                "%s: %04x is not in the table and is at %r" % (what, p, at.get_tsap(G(p))),
            )


def hexes(xs):
    return "[" + " ".join("%04x" % x for x in xs) + "]"


def T01(ctx):
    """The address table is a sorted bounded set with stable lookups."""
    ctx.rule = (
        "random histories of add/remove/individual address changes on address tables of "
        "maximum size 0 to 2**20, filled to the limit if that is up to 700; after every operation the whole "
        "table is compared with a sorted set; non-trivial: distinct (size, operation, "
        "accepted?, number of entries)"
    )
    for i, rng in ctx.cases("history", ctx.more(500, 8000)):
        size = rng.choice([0, 1, 2, 3, 5, 8, 16, 30, 255])
        pool = pool_of(rng, min(max(4, size + 3), 40))
        address_history(ctx, rng, size, pool, rng.choice([4, 12, 40]))
    for i, rng in ctx.cases("large", ctx.more(6, 80)):
        size = rng.choice([253, 254, 255, 256, 257, 300, 700])
        address_history(ctx, rng, size, pool_of(rng, size + 5), 6)
    for i, rng in ctx.cases("wide", ctx.more(40, 400)):
        # room for more than there is
        size = rng.choice([1023, 4095, 4096, 4097, 5000, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001, 1 << 20])
        address_history(ctx, rng, size, pool_of(rng, rng.choice([3, 10, 40])), 12)
    for i, rng in ctx.cases("crowded", ctx.scale(1, 4)):
        crowded(ctx, rng)
    age.tables(ctx)
    ctx.floor(events__op=2000)


def crowded(ctx, rng):
    """A table of thousands of addresses."""
    n = ctx.scale(4200, 9000)
    pool = rng.sample(range(1, 0x10000), n + 3)
    new, first = pool[n:], pool[:n - 2]
    at = k.AddressTable(k.Address(first[0] if rng.random() < 0.5 else 0x1001), [kit.G(a) for a in first], n)
    model = sorted(first)

    def same(what):
        got = [a.free_style for a in at.addresses]
        ctx.expect(got == model, "%s: a table of %d addresses holds %d others" % (what, len(model), len(got)))
        for j in (0, 1, n // 2, 4095, 4096, len(model) - 2, len(model) - 1, rng.randrange(len(model))):
            a = model[j]
            ctx.expect(
                at.get_tsap(kit.G(a)) == j + 1 and at.get_address(j + 1).free_style == a,
                "%s: %04x, number %d of %d, is number %r and that one is %r"
                % (what, a, j + 1, len(model), at.get_tsap(kit.G(a)), at.get_address(j + 1)),
            )
        ctx.event("op", what, len(got))
        ctx.see("crowded", what, len(got))

    same("new table")
    for j in (0, 1, 255, 256, 4095, 4096, len(model) - 1, rng.randrange(len(model))):
        at.add(kit.G(model[j]))
    same("the same again")
    for a in new[:2]:
        at.add(kit.G(a))
        model = sorted(model + [a])
    same("filled")
    ctx.expect(not call(at.add, kit.G(new[2])).ok, "a table of %d addresses takes one more" % n)
    at.add(kit.G(model[-1]))
    same("one too many")
    for _ in range(4):
        a = rng.choice([model[0], model[-1], model[4100], rng.choice(model)])
        at.remove(kit.G(a))
        model = [x for x in model if x != a]
        ctx.expect(
            at.get_tsap(kit.G(a)) in (None, 0) and not call(at.remove, kit.G(a)).ok,
            "%04x was removed from %d addresses and is there" % (a, len(model)),
        )
    same("removed")


def address_history(ctx, rng, size, pool, steps):
    if rng.random() < 0.2:
        pool = [0] + pool

    def G(x):  # an address of any kind
        return k.Address(x) if rng.random() < 0.15 else kit.G(x)

    ia = rng.choice(pool + [0x1001, 0xFFFF])
    most = min(size, len(pool))
    start = rng.sample(pool, rng.randrange(most + 1) if len(pool) < 50 else most - rng.choice([0, 1, 2]))
    again = start + [rng.choice(start) for _ in range(rng.choice([0, 0, 1, 3])) if start]
    rng.shuffle(again)
    given = [G(a) for a in again]
    if rng.random() < 0.4:
        given = (g for g in given)
    if size < len(pool) and rng.random() < 0.3:
        many = rng.sample(pool, rng.randrange(size + 1, len(pool) + 1))
        o = call(k.AddressTable, k.Address(ia), [G(a) for a in many], size)
        ctx.event("too many", len(many), size, o.ok)
        ctx.expect(not o.ok, "a table of at most %d addresses is made of %d" % (size, len(many)))
    at = k.AddressTable(k.Address(ia), given, size)
    model = sorted(start)
    check_address_table(ctx, at, ia, model, size, pool, "new table")
    for step in range(steps):
        op = rng.choice(["add", "add", "add", "remove", "again", "absent", "ia"])
        if op == "ia":
            ia = rng.choice(pool + [rng.randrange(0x10000)])
            at.individual_address = k.Address(ia)
            ok = True
        elif op in ("add", "again"):
            a = rng.choice(model if op == "again" and model else pool)
            o = call(at.add, G(a))
            fits = a in model or len(model) < size
            ok = o.ok
            ctx.expect(
                o.ok == fits,
                "adding %04x to %d of %d addresses: %r" % (a, len(model), size, o),
            )
            if fits:
                model = sorted(set(model) | {a})
        else:
            gone = [p for p in pool if p not in model]
            if op == "remove" and model:
                a = rng.choice(model)
            elif gone:
                a = rng.choice(gone)
            else:
                continue
            o = call(at.remove, G(a))
            ok = o.ok
            ctx.expect(o.ok == (a in model), "removing %04x: %r" % (a, o))
            model = [x for x in model if x != a]
        ctx.event("op", op, ok, hexes(model))
        ctx.see("op", size, op, ok, len(model))
        check_address_table(ctx, at, ia, model, size, pool, "after %s" % op)
        if op == "ia":
            continue
    text = repr(at)
    shown = [int(x, 16) for x in re.findall(r"^    [1-9]\d* -> \(?0x([0-9A-F]{4})\b", text, re.M)]
    ctx.expect(shown == model, "the table of %s shows as %r" % (hexes(model), text))


# --------------------------------------------------------------------------- #
class World:
    """A stack whose tables are edited through their public operations, and the
    model of them."""

    def __init__(self, ctx, rng, size=None, large=False):
        self.ctx, self.rng = ctx, rng
        self.size = size if size is not None else rng.choice([2, 3, 4, 6, 10, 255])
        if large:
            self.size = rng.choice([262, 300, 1000])
        self.pool = pool_of(rng, 270 if large else rng.choice([3, 5, 8, 12]))
        self.ia = rng.choice([0x1001, 0x102C, 0x00FE, rng.choice(self.pool)])
        self.preloaded = (
            set(rng.sample(self.pool, 1)) if rng.random() < 0.3 else set()
        )
        self.at = k.AddressTable(
            k.Address(self.ia), [G(a) for a in self.preloaded], self.size
        )
        self.kept = {} if rng.random() < 0.5 else None  # a program keeps its access points
        self.asaps = rng.sample(range(1, 12), rng.choice([1, 2, 3, 5]))
        if rng.random() < 0.3:  # numbers alike in their last bits
            far = rng.choice(self.asaps) + (1 << rng.choice([8, 15, 16, 31, 32, 64]))
            self.asaps.append(far)
        if large:
            self.asaps = rng.sample(range(1, 400), rng.choice([30, 90])) + [1000, 65536]
        self.t = spec.Tables(self.ia, max_size=self.size)
        self.t.preloaded = set(self.preloaded)
        first = []
        for n in range(rng.randrange(4) + (400 if large else 0)):
            a, addr = rng.choice(self.asaps), rng.choice(self.pool)
            if large and n < 256:
                addr = self.pool[n]
            if self.t.fits([addr]):
                self.t.associate(a, [addr])
                first.append(k.Association(asap=self.asap(a), address=G(addr)))
        self.assoc = k.AssociationTable(self.at, first or rng.choice([None, [], {}]))
        for a in self.asaps:
            self.t.types[a] = rng.choice(sorted(spec.TYPES))
        self.got = k.GroupObjectTable(
            {self.asap(a): kit.dpt_class(n) for a, n in self.t.types.items()}
        )
        self.medium = rng.choice(["usb", "tp", "ip"])
        self.stack = kit.Stack.__new__(kit.Stack)
        s = self.stack
        s.t, s.medium, s.at, s.assoc, s.got = self.t, self.medium, self.at, self.assoc, self.got
        if self.medium == "ip":
            s.state = k.knxnet_ip.State(kit.MEDIA["ip"], self.assoc, self.got)
        else:
            s.state = k.State(kit.MEDIA[self.medium], self.assoc, self.got)

    def asap(self, a):
        if self.kept is not None and a in self.kept:
            return self.kept[a]
        new = kit.asap(a, "named %d" % a if self.rng.random() < 0.3 else None)
        if self.kept is not None:
            self.kept[a] = new
        return new

    # ---- operations -----------------------------------------------------
    def some(self, n=None):
        n = n or self.rng.choice([1, 1, 2, 3, 5])
        return [self.rng.choice(self.pool) for _ in range(n)]

    def given(self, addrs):
        r = self.rng.random()
        objs = [G(a) for a in addrs]
        if r < 0.5:
            return objs
        if r < 0.7:
            return tuple(objs)
        return (o for o in objs)

    def step(self):
        rng, t, ctx = self.rng, self.t, self.ctx
        op = rng.choice(
            ["assoc", "assoc", "assoc", "assoc", "dis", "dis", "dis", "dis unknown asap",
             "dis absent", "dis half", "boom", "dis boom", "empty", "ia"]
        )
        a = rng.choice(self.asaps)
        if op == "ia":  # may be the number of a group address, too
            self.ia = t.ia = rng.choice([rng.randrange(1, 0x10000), rng.choice(self.pool)])
            self.at.individual_address = k.Address(t.ia)
            ctx.event("op", self.medium, op, self.ia)
            return op, True
        if op in ("assoc", "empty"):
            addrs = [] if op == "empty" else self.some()
            fits = t.fits(addrs)
            o = call(self.assoc.associate, self.asap(a), self.given(addrs))
            ctx.expect(
                o.ok == fits,
                "associating %s to ASAP %d (%d of %d used): %r"
                % (hexes(addrs), a, len(t.addresses()), self.size, o),
            )
            if fits:
                t.associate(a, addrs)
        elif op == "boom":
            addrs = self.some()

            def half():
                for x in addrs:
                    yield G(x)
                raise Boom()

            o = call(self.assoc.associate, self.asap(a), half())
            ctx.expect(not o.ok, "the caller's own error is lost")
        else:
            mine = [x for x in t.assoc.get(a, []) if x not in self.preloaded]
            if op == "dis":
                if not mine:
                    return None
                addrs = rng.sample(mine, rng.randrange(1, len(mine) + 1))
            elif op == "dis unknown asap":
                a, addrs = 99, self.some(1)
            elif op == "dis absent":
                addrs = [x for x in self.pool if x not in t.assoc.get(a, [])][:1]
                if not addrs:
                    return None
            elif op == "dis boom":
                addrs = mine[:1]

                def half():
                    for x in addrs:
                        yield G(x)
                    raise Boom()

                o = call(self.assoc.disassociate, self.asap(a), half())
                ctx.expect(not o.ok, "the caller's own error is lost")
                ctx.event("op", self.medium, op, a, hexes(addrs), o.ok)
                return op, o.ok
            else:  # some of them are there, one is not
                other = [x for x in self.pool if x not in t.assoc.get(a, [])][:1]
                if not mine or not other:
                    return None
                addrs = mine[:2] + other
                if rng.random() < 0.3:
                    addrs = [mine[0], mine[0]]
            can = t.can_disassociate(a, addrs)
            o = call(self.assoc.disassociate, self.asap(a), self.given(addrs))
            ctx.expect(
                o.ok == can, "disassociating %s from ASAP %d: %r" % (hexes(addrs), a, o)
            )
            if can:
                t.disassociate(a, addrs)
        ctx.event("op", self.medium, op, a, hexes(addrs), o.ok)
        return op, o.ok

    # ---- observation ----------------------------------------------------
    def check(self, what):
        ctx, t = self.ctx, self.t
        want = t.addresses()
        check_address_table(ctx, self.at, self.ia, want, self.size, self.pool, what)
        asaps = {x.value for x in self.assoc.asaps}
        need = {x for x, addrs in t.assoc.items() if addrs} | {0}
        ctx.expect(
            need <= asaps <= set(t.assoc),
            "%s: ASAPs %r, expected at least %r" % (what, sorted(asaps), sorted(need)),
        )
        for x in self.pool:
            got = sorted(
                s.value for s in self.assoc.get_asaps_from_address(G(x)) if s.value
            )
            exp = sorted(t.asaps_of(x))
            ctx.expect(
                got == exp, "%s: address %04x goes to ASAPs %r, not %r" % (what, x, got, exp)
            )
            tsap = self.assoc.get_tsap(G(x))
            exp_tsap = want.index(x) + 1 if x in want else (0 if x == self.ia else None)
            ctx.expect(tsap == exp_tsap, "%s: %04x is at tsap %r" % (what, x, tsap))
            if tsap:
                got = sorted(s.value for s in self.assoc.get_asaps(tsap) if s.value)
                ctx.expect(
                    got == exp, "%s: tsap %d goes to ASAPs %r, not %r" % (what, tsap, got, exp)
                )
        for a in self.asaps:
            if a not in asaps:
                continue
            tsaps = self.assoc.get_tsaps(self.asap(a))
            got = [x.free_style for x in self.assoc.get_addresses(tsaps)]
            ctx.expect(
                got == t.assoc[a],
                "%s: ASAP %d has addresses %s, not %s" % (what, a, hexes(got), hexes(t.assoc[a])),
            )
        ctx.expect(
            self.assoc.individual_address.free_style == self.ia,
            "%s: individual address %r" % (what, self.assoc.individual_address),
        )
        own = self.assoc.get_tsaps(kit.asap(0))
        got = [x.free_style for x in self.assoc.get_addresses(own)] if None not in own else own
        # a group address with the same number comes first in the address table
        ctx.expect(
            got == [self.ia], "%s: the stack's own address %04x is %r" % (what, self.ia, got)
        )
        ctx.expect(
            0 in {x.value for x in self.assoc.get_asaps_from_address(k.Address(self.ia))},
            "%s: the individual address %04x leads nowhere" % (what, self.ia),
        )

    def check_frames(self, what, n=3):
        """The same, as the bus sees it."""
        ctx, t, rng = self.ctx, self.t, self.rng
        for _ in range(n):
            x = rng.choice(self.pool)
            if self.medium != "tp":
                op = rng.choice(["read", "write", "response"])
                svc = rng.choice(["ind", "con"])
                names = [t.types[a] for a in t.asaps_of(x) if a in t.types]
                d = spec.TYPES[names[0] if names else "DPT_Switch"]
                f = kit.group_frame(rng, t, svc, x, d, op, kit.random_word(rng, d))
                want, got = spec.decode_cemi(t, f), self.stack.receive(f)
                ctx.event("decoded", self.medium, f.hex(), got)
                ctx.expect(
                    kit.same(want, got),
                    "%s: frame %s is delivered as %r, not %r" % (what, f.hex(), got, want),
                )
            a = rng.choice(self.asaps)
            to = t.sending_address(a)
            o = self.stack.encode(kit.read_req(self.asap(a)))
            if to is None:
                ctx.expect(not o.ok, "%s: ASAP %d has no address and sent %r" % (what, a, o))
                ctx.event("refused", a)
                continue
            ctx.expect(o.ok, "%s: reading ASAP %d fails: %r" % (what, a, o))
            want = spec.cemi(spec.REQ, to, spec.tpdu_group(spec.READ, None, 0))
            got = kit.to_bytes(o.value)
            body = got
            if self.medium == "usb":
                body = spec.parse_usb(got)[3]
            elif self.medium == "ip":
                body = spec.parse_tunnel(got)[3]
            ctx.event("encoded", self.medium, a, got.hex())
            ctx.expect(
                body == want,
                "%s: reading ASAP %d (first address %04x) sends %s" % (what, a, to, got.hex()),
            )


def T02(ctx):
    """Routing follows the associations, whatever the history."""
    ctx.rule = (
        "random histories of associating/disassociating shared addresses (lists, tuples, "
        "generators, duplicates), overflowing the address table, unknown ASAPs and "
        "addresses, iterables raising half way; after every operation the tables' "
        "lookups, and frames decoded and encoded, are compared with a model; "
        "non-trivial: distinct (operation, accepted?, table after it)"
    )
    for i, rng in ctx.cases("history", ctx.more(420, 8000)):
        w = World(ctx, rng)
        w.check("new tables")
        for step in range(rng.choice([5, 15, 40])):
            r = w.step()
            if r is None:
                continue
            ctx.see(
                "op", r, tuple((a, tuple(x)) for a, x in sorted(w.t.assoc.items()))
            )
            w.check("after %s" % (r[0],))
            w.check_frames("after %s" % (r[0],), 2)
    for i, rng in ctx.cases("large", ctx.more(4, 60)):
        w = World(ctx, rng, large=True)
        w.check("new large tables")
        w.check_frames("new large tables", 10)
        for step in range(8):
            r = w.step()
            if r:
                w.check_frames("after %s" % (r[0],), 4)
                ctx.see("large", r)
        # some access points are left without any address, and get others
        for a in rng.sample(w.asaps, 4):
            mine = [x for x in w.t.assoc.get(a, []) if x not in w.preloaded]
            if mine != w.t.assoc.get(a):
                continue
            o = call(w.assoc.disassociate, w.asap(a), w.given(mine))
            ctx.expect(o.ok, "taking every address from ASAP %d: %r" % (a, o))
            w.t.disassociate(a, mine)
            ctx.event("op", w.medium, "all", a)
            w.check_frames("after taking all from ASAP %d" % a, 4)
            if rng.random() < 0.5:
                w.assoc.associate(w.asap(a), [G(mine[-1])])
                w.t.associate(a, mine[-1:])
                w.check_frames("after giving ASAP %d one again" % a, 4)
        w.check("at the end")
    age.tables(ctx)
    ctx.floor(events__op=2000, events__decoded=2000, events__encoded=1000)


def T03(ctx):
    """A free ASAP value is the smallest one not in use."""
    ctx.rule = (
        "association tables filled in random order (dense, sparse, shuffled, allocated one "
        "from the other); after every operation the free value is compared with the "
        "smallest unused; non-trivial: distinct sets of values in use"
    )
    for i, rng in ctx.cases("fill", ctx.more(800, 12000)):
        w = World(ctx, rng, size=255)
        values = rng.choice(
            [
                list(range(1, 13)),
                rng.sample(range(1, 13), 8),
                rng.sample(range(1, 300), 8),
                [n + (rng.choice([0, 1]) << rng.choice([8, 16, 31, 32, 61, 64])) for n in rng.sample(range(1, 9), 6)],
                [12, 11, 10, 3, 2, 1, 4, 5],
                list(range(1, 270)) if rng.random() < 0.05 else [1],
            ]
        )
        if rng.random() < 0.6:
            rng.shuffle(values)
        mode = rng.choice(["given", "given", "allocate", "mixed"])

        def probe():
            used = {x.value for x in w.assoc.asaps}
            want = next(n for n in range(len(used) + 1) if n not in used)
            got = w.assoc.get_free_asap_value()
            ctx.event("free", sorted(used), got)
            ctx.expect(
                got == want, "the free value among %r is %r, not %d" % (sorted(used), got, want)
            )
            ctx.see("used", tuple(sorted(used)))
            return got

        probe()
        for v in values[: rng.randrange(1, len(values) + 1)]:
            free = probe()
            if mode == "allocate" or (mode == "mixed" and rng.random() < 0.5):
                v = free
            w.assoc.associate(w.asap(v), [G(rng.choice(w.pool))])
            ctx.expect(
                v in {x.value for x in w.assoc.asaps}, "ASAP %d is not in the table" % v
            )
            probe()
        for a in list(w.t.assoc):
            if a and rng.random() < 0.3:
                mine = [x for x in w.t.assoc[a] if x not in w.preloaded]
                if mine:
                    w.assoc.disassociate(w.asap(a), [G(mine[0])])
                    probe()
    for i, rng in ctx.cases("many", ctx.more(12, 120)):
        # nearly all up to a limit, and some above it
        at = k.AddressTable(k.Address(0x1001), [G(1)], 255)
        assoc = k.AssociationTable(at, [])
        n = rng.choice([16, 32, 63, 64, 128, 255, 256, 257, 300, 512])
        values = list(range(1, n))
        for _ in range(rng.choice([0, 0, 1, 2])):
            values.remove(rng.choice(values))
        values += rng.sample([n + 1, n + 2, n + 50, 1000, 65535, 65536, 1 << 32], rng.randrange(4))
        if rng.random() < 0.5:
            rng.shuffle(values)
        for v in values:
            assoc.associate(kit.asap(v), [G(1)])
        for _ in range(4):
            used = {x.value for x in assoc.asaps}
            want = next(n for n in range(len(used) + 1) if n not in used)
            got = assoc.get_free_asap_value()
            ctx.event("free", len(used), got)
            ctx.expect(got == want, "the free value among %r is %r, not %d" % (sorted(used), got, want))
            ctx.see("used", tuple(sorted(used)))
            assoc.associate(kit.asap(got), [G(1)])
    ctx.floor(events__free=2000)


def T04(ctx):
    """Live reconfiguration reaches the next message."""
    ctx.rule = (
        "histories interleaving changes of a stack's group object table, associations and "
        "individual address with encoding and decoding on the same state; each message "
        "is compared with the reference for the tables as they are then; non-trivial: "
        "distinct (change, operation, type)"
    )
    names = sorted(spec.TYPES)
    for i, rng in ctx.cases("history", ctx.more(350, 6000)):
        w = World(ctx, rng, size=255)
        t = w.t
        change = "start"
        for step in range(rng.choice([6, 20, 40])):
            r = rng.random()
            a = rng.choice(w.asaps)
            if r < 0.25:
                n = rng.choice(names)
                w.got.associate(w.asap(a), kit.dpt_class(n))
                t.types[a] = n
                change = "type"
            elif r < 0.33:
                o = call(w.got.disassociate, w.asap(a))
                ctx.expect(
                    o.ok == (a in t.types), "removing the type of ASAP %d: %r" % (a, o)
                )
                t.types.pop(a, None)
                change = "no type"
            elif r < 0.40:
                w.ia = t.ia = rng.choice([rng.randrange(1, 0x10000), rng.choice(w.pool)])
                w.at.individual_address = k.Address(t.ia)
                change = "address"
            elif r < 0.55:
                res = w.step()
                if res is None:
                    continue
                change = res[0]
            w.check("after %s" % change)
            seen = {x.value: d.__name__ for x, d in w.got.associations}
            ctx.expect(seen == t.types, "group objects are %r, not %r" % (seen, t.types))
            ctx.event("change", change)
            # what is received
            if w.medium != "tp":
                for _ in range(2):
                    if rng.random() < 0.75:
                        x = rng.choice(w.pool)
                        known = [t.types[b] for b in t.asaps_of(x) if b in t.types]
                        d = spec.TYPES[rng.choice(known) if known else rng.choice(names)]
                        op = rng.choice(["write", "write", "response", "read"])
                        f = kit.group_frame(
                            rng, t, rng.choice(["ind", "con"]), x, d, op, kit.random_word(rng, d)
                        )
                    else:
                        f = kit.property_frame(
                            rng, t, rng.choice(["ind", "con"]), "response", rng.random() < 0.6
                        )
                    want, got = spec.decode_cemi(t, f), w.stack.receive(f)
                    ctx.event("decoded", f.hex(), got)
                    ctx.expect(
                        kit.same(want, got),
                        "after %s, frame %s is delivered as %r, not %r"
                        % (change, f.hex(), got, want),
                    )
                    ctx.see("decoded", change, tuple(m[:2] + m[4:5] for m in want))
            # what is sent
            a = rng.choice(w.asaps)
            if rng.random() < 0.2:
                f = (rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(4), rng.getrandbits(12))
                o = w.stack.encode(kit.prop_read_req(w.asap(a), f))
                want = spec.cemi(
                    spec.REQ, t.ia, spec.tpdu_property(spec.PROP_READ, *f), group=False
                )
                kind = "property"
            elif a in t.types:
                d = spec.TYPES[t.types[a]]
                v = kit.random_word(rng, d)
                o = w.stack.encode(kit.write_req(w.asap(a), kit.dpt(d.name, v)))
                to = t.sending_address(a)
                want = to and spec.cemi(spec.REQ, to, spec.tpdu_group(spec.WRITE, d, v))
                kind = d.name
            else:
                d = spec.TYPES[rng.choice(names)]
                o = w.stack.encode(kit.write_req(w.asap(a), kit.dpt(d.name, 0)))
                want, kind = None, "untyped"
            if want is None:
                ctx.expect(
                    not o.ok, "after %s, ASAP %d can not be written, yet: %r" % (change, a, o)
                )
                ctx.event("refused", a, kind)
            else:
                ctx.expect(o.ok, "after %s, ASAP %d: %r" % (change, a, o))
                got = kit.to_bytes(o.value)
                body = {
                    "usb": lambda: spec.parse_usb(got)[3],
                    "ip": lambda: spec.parse_tunnel(got)[3],
                    "tp": lambda: got,
                }[w.medium]()
                ctx.event("encoded", kind, got.hex())
                ctx.expect(
                    body == want,
                    "after %s, ASAP %d (%s) sends %s, not %s"
                    % (change, a, kind, body.hex(), want.hex()),
                )
            ctx.see("encoded", change, kind)
    ctx.floor(events__decoded=2000, events__encoded=1500, events__refused=50)


# --------------------------------------------------------------------------- #
def shown_tables(text):
    """{asap: (name, [addresses])}, {connection: address}, head of the address table."""
    routes, order, numbers, part, head = {}, [], {}, None, None
    for line in text.split("\n"):
        if line.startswith("AssociationTable"):
            part = "assoc"
        elif line.startswith("AddressTable"):
            part = "address"
            head = re.search(r"individual address: 0x(\w+), max_size=(\d+)", line)
            head = (int(head.group(1), 16), int(head.group(2)))
        elif "->" not in line or "tsap" in line:
            continue
        elif part == "assoc":
            m = re.match(r"    (\d+)(?: \((.*)\))? -> \[(.*)\]$", line)
            a = int(m.group(1))
            routes[a] = (m.group(2), [int(x, 16) for x in re.findall(r"0x([0-9A-F]{4})\b", m.group(3))])
        else:
            m = re.match(r"    (\d+) -> \(?0x([0-9A-F]{4})\b(.*)$", line)
            numbers[int(m.group(1))] = int(m.group(2), 16)
            order.append(int(m.group(1)))
    return routes, numbers, order, head


def T05(ctx):
    """What the tables print is what they hold."""
    ctx.rule = (
        "histories of reconfigurations, refused ones included; after each the text of the "
        "association, address and group object tables (and of the state they are in) is "
        "parsed and compared with the model; non-trivial: distinct tables shown"
    )
    for i, rng in ctx.cases("history", ctx.more(200, 3000)):
        w = World(ctx, rng, size=rng.choice([None, 255]))
        t = w.t
        names = {0: {"individual address"}}
        for step in range(rng.choice([5, 15])):
            r = w.step()
            if rng.random() < 0.3:
                a = rng.choice(w.asaps)
                if rng.random() < 0.6:
                    t.types[a] = rng.choice(sorted(spec.TYPES))
                    w.got.associate(w.asap(a), kit.dpt_class(t.types[a]))
                elif a in t.types:
                    w.got.disassociate(w.asap(a))
                    del t.types[a]
            if r is None:
                continue
            text = repr(w.assoc)
            ctx.event("shown", text)
            routes, numbers, order, head = shown_tables(text)
            want = {a: list(x) for a, x in t.assoc.items() if a and x}
            got = {a: x for a, (_, x) in routes.items() if a and x}
            ctx.expect(got == want, "after %s the associations %r are shown as %s" % (r[0], want, text))
            ctx.expect(
                routes.get(0) == ("individual address", [w.ia]),
                "after %s the individual address %04x is shown as %s" % (r[0], w.ia, text),
            )
            for a, (name, _) in routes.items():
                ctx.expect(
                    not a or name in (None, "named %d" % a), "ASAP %d is shown as %r" % (a, name)
                )
            full = {0: w.ia}
            full.update((n + 1, x) for n, x in enumerate(t.addresses()))
            ctx.expect(
                numbers == full and order == list(range(len(full))) and head == (w.ia, w.size),
                "after %s the addresses %r are shown as %s" % (r[0], full, text),
            )
            ctx.expect(repr(w.at) in text, "the address table shows as %r" % w.at)
            types = dict(
                (int(a), n)
                for a, n in re.findall(r"^    (\d+)(?: \(.*\))? -> (\w+)$", repr(w.got), re.M)
            )
            ctx.expect(types == t.types, "types %r are shown as %r" % (t.types, w.got))
            whole = repr(w.stack.state)
            ctx.expect(
                text in whole and repr(w.got) in whole, "the tables are not in the text of the state"
            )
            ctx.see("tables", text)
    for i, rng in ctx.cases("large", ctx.more(3, 30)):
        w = World(ctx, rng, large=True)
        for step in range(3):
            w.step()
            routes, numbers, order, head = shown_tables(repr(w.assoc))
            ctx.event("shown", len(order))
            full = {0: w.ia}
            full.update((n + 1, x) for n, x in enumerate(w.t.addresses()))
            ctx.expect(
                numbers == full and order == list(range(len(full))) and head == (w.ia, w.size),
                "%d addresses are shown as %d" % (len(full), len(numbers)),
            )
            got = {a: x for a, (_, x) in routes.items() if a and x}
            want = {a: list(x) for a, x in w.t.assoc.items() if a and x}
            ctx.expect(got == want, "%d associations are shown as %d" % (len(want), len(got)))
            types = re.findall(r"^    (\d+)(?: \(.*\))? -> (\w+)$", repr(w.got), re.M)
            ctx.expect(
                dict((int(a), n) for a, n in types) == w.t.types,
                "%d types are shown as %d" % (len(w.t.types), len(types)),
            )
            ctx.see("tables", len(full), w.ia)
    for i, rng in ctx.cases("names", ctx.more(200, 2000)):
        # names are anybody's: none, the same for several, odd ones
        pool = [None, None, "lamp", "lamp", "on/off light", "a -> b", "1", "(x)", " hall ", " ", rng.choice("uvw") * rng.randrange(1, 400)]
        points = {n: rng.choice(pool) for n in rng.sample(range(1, 30), rng.choice([1, 3, 8]))}
        types = {n: rng.choice(sorted(spec.TYPES)) for n in points}
        got = k.GroupObjectTable()
        at = k.AddressTable(k.Address(0x1001), [], 255)
        assoc = k.AssociationTable(at, [])
        addrs = {}
        for n, name in points.items():
            got.associate(kit.asap(n, name), kit.dpt_class(types[n]))
            addrs[n] = rng.sample([0x0901, 0x0902, 0x1103, 0xFFFF], rng.choice([1, 2]))
            assoc.associate(kit.asap(n, name), [kit.G(x) for x in addrs[n]])
        who = {n: "%d (%s)" % (n, name) if name else "%d" % n for n, name in points.items()}
        text = repr(got)
        ctx.event("shown", text)
        lines = sorted(text.split("\n")[1:-1])
        ctx.expect(
            lines == sorted("    %s -> %s" % (who[n], types[n]) for n in points),
            "types %r of %r are shown as %r" % (types, points, text),
        )
        text = repr(assoc)
        ctx.event("shown", text)
        for n in points:
            mine = [x for x in text.split("\n") if x.startswith("    %s -> [" % who[n])]
            shown = [int(x, 16) for x in re.findall(r"0x([0-9A-F]{4})", mine[0])] if len(mine) == 1 else None
            ctx.expect(shown == addrs[n], "ASAP %s on %r is shown as %s" % (who[n], addrs[n], text))
        ctx.see("names", text)
    for i, rng in ctx.cases("points", ctx.more(300, 3000)):
        n, m = rng.randrange(300), rng.randrange(300)
        if rng.random() < 0.3:  # alike in their last bits only
            m = n + (rng.choice([1, 3, 1000]) << rng.choice([6, 8, 12, 15, 16, 31, 32, 61]))
            n, m = rng.choice([(n, m), (m, n)])
        a, b = kit.asap(n, rng.choice([None, "x"])), kit.asap(n, rng.choice([None, "y"]))
        c = kit.asap(m)
        ctx.expect(a == b and hash(a) == hash(b) and not (a != b), "ASAPs %r and %r differ" % (a, b))
        ctx.expect((a == c) == (n == m) and (a != c) == (n != m), "ASAPs %r and %r" % (a, c))
        ctx.expect(a.value == n and (a.name in (None, "x")), "ASAP %d is %r" % (n, a))
        ctx.event("points", n, m)
    ctx.floor(events__shown=1000)


# --------------------------------------------------------------------------- #
def T06(ctx):
    """A state answers from its tables and its last message."""
    ctx.rule = (
        "states in the middle of reconfigurations and traffic: what they tell of their "
        "tables, medium, counters and channel, of the destination of the frame decoded last "
        "and of the access point asked for, against the model, and that their text shows "
        "it; non-trivial: distinct (tables, frame, access point)"
    )
    for i, rng in ctx.cases("history", ctx.more(300, 4000)):
        w = World(ctx, rng, size=rng.choice([None, 255]))
        t, st = w.t, w.stack.state
        counters = {"sequence_counter_local": 0, "sequence_counter_remote": 0}
        if w.medium == "ip":
            counters["communication_channel_id"] = 0
        last = heard = None  # of the requests, of the frames
        for _ in range(rng.choice([3, 10])):
            if rng.random() < 0.7:
                w.step()
            ctx.expect(
                st.association_table is w.assoc and st.datapointtypes is w.got
                and st.medium is kit.MEDIA[w.medium] and st.individual_address == k.Address(t.ia),
                "the state tells other tables, medium or address: %r" % st,
            )
            for n in rng.sample(sorted(counters), rng.randrange(len(counters) + 1)):
                v = rng.choice(
                    [0, 1, 255, 256, 257, 511, 512, rng.randrange(2000), -1, -2, -255, -256, -257]
                )
                if n == "communication_channel_id":
                    v %= 256
                setattr(st, n, v)
                counters[n] = v % 256
            got = {n: getattr(st, n) for n in counters}
            ctx.expect(got == counters, "the counters %r are told as %r" % (counters, got))
            # of a frame of the bus
            x = rng.choice(w.pool)
            if w.medium != "tp" and rng.random() < 0.7:
                f = kit.group_frame(
                    rng, t, rng.choice(["ind", "con"]), x, spec.TYPES["DPT_Switch"], "read", 0
                )
                w.stack.receive(f)
                if w.medium == "ip":  # it was acknowledged
                    counters["sequence_counter_remote"] = (counters["sequence_counter_remote"] + 1) % 256
                heard = x
            if heard is not None:  # the frame decoded last, with the tables of now
                x = heard
                h = st.ldata
                ctx.expect(h.destination == x, "after a frame to %04x the header is %r" % (x, h))
                tsap = dict((y, n + 1) for n, y in enumerate(t.addresses())).get(x)
                if tsap is None and x == t.ia:
                    tsap = 0
                ctx.expect(st.get_tsap() == tsap, "%04x is TSAP %r, not %r" % (x, st.get_tsap(), tsap))
                if tsap:
                    asaps = sorted(a.value for a in st.get_asaps() if a.value)
                    want = sorted(a for a in t.asaps_of(x) if a)
                    ctx.expect(asaps == want, "%04x leads to the ASAPs %r, not %r" % (x, asaps, want))
                    both = sorted((a.value, d.__name__) for a, d in st.get_asaps_and_dpts())
                    want = sorted((a, t.types[a]) for a in want if a in t.types)
                    ctx.expect(both == want, "%04x leads to %r, not %r" % (x, both, want))
                ctx.event("frame", x, tsap)
            # of an access point, by itself and by a request
            a = rng.choice(w.asaps)
            if a not in t.assoc:
                continue
            if rng.random() < 0.5:
                st.asap = w.asap(a)
                last = a
            elif t.sending_address(a):
                o = w.stack.encode(kit.read_req(w.asap(a)))
                ctx.expect(o.ok, "reading ASAP %d: %r" % (a, o))
                last = a
                ctx.expect(
                    st.asap == kit.asap(a) and st.address_type == k.definition.layer.AddressType.group,
                    "after reading ASAP %d the state tells ASAP %r, %r" % (a, st.asap, st.address_type),
                )
            if last is not None and last in t.assoc:
                want = list(t.assoc[last])
                got = [y.free_style for y in st.get_addresses()]
                ctx.expect(got == want, "ASAP %d has the addresses %s, not %s" % (last, hexes(got), hexes(want)))
                order = t.addresses()
                got, want = list(st.get_tsaps()), [order.index(y) + 1 for y in want]
                ctx.expect(got == want, "ASAP %d has the TSAPs %r, not %r" % (last, got, want))
                if last in t.types:
                    got = st.get_dpt()
                    ctx.expect(
                        got.__name__ == t.types[last], "ASAP %d is of type %r" % (last, got)
                    )
                ctx.event("asked", last)
            at_ = st.asap if last is None else st.asap.value
            ctx.expect(at_ == last, "asked for ASAP %r, the state tells %r" % (last, st.asap))
            text = repr(st)
            for what in (
                repr(w.assoc), repr(w.got), str(st.medium), "%s" % st.ldata,
                "ASAP: %s," % st.asap, "Address Type: %s" % st.address_type,
                "(remote): %d\n" % counters["sequence_counter_remote"],
                "(local): %d\n" % counters["sequence_counter_local"],
            ):
                ctx.expect(what in text, "%r is not in the text of the state: %s" % (what, text))
            ctx.event("shown", text)
            ctx.see("state", tuple(sorted((a, tuple(y)) for a, y in t.assoc.items())), x, last)
    for i, rng in ctx.cases("many", ctx.more(6, 40)):
        # many access points of one address, many addresses of one access point
        n, x = rng.choice([20, 40, 100, 300]), rng.randrange(1, 0x10000)
        pool = rng.sample([y for y in range(1, 0x10000) if y != x], n)
        at = k.AddressTable(k.Address(0x1001), [], n + 1)
        assoc = k.AssociationTable(at, [])
        first = rng.sample(range(1, 1000), n)
        for a in first:
            assoc.associate(kit.asap(a), [G(x)])
        a = 1000
        assoc.associate(kit.asap(a), [G(y) for y in pool])
        types = {b: rng.choice(sorted(spec.TYPES)) for b in first + [a]}
        got = k.GroupObjectTable({kit.asap(b): kit.dpt_class(d) for b, d in types.items()})
        st = k.State(kit.MEDIA["usb"], assoc, got)
        st.ldata, _ = k.layer.L_Data.make_from(
            k.Msg.make_from_str("BCE00000%04X010000" % x)
        )
        asaps = sorted(b.value for b in st.get_asaps())
        ctx.expect(asaps == sorted(first), "%04x leads to %d of %d ASAPs" % (x, len(asaps), n))
        both = sorted((b.value, d.__name__) for b, d in st.get_asaps_and_dpts())
        ctx.expect(
            both == sorted((b, types[b]) for b in first), "%04x leads to %d of %d types" % (x, len(both), n)
        )
        st.asap = kit.asap(a)
        shown = [y.free_style for y in st.get_addresses()]
        ctx.expect(shown == pool, "ASAP %d has %d of %d addresses" % (a, len(shown), n))
        order = [y.free_style for y in at.addresses]
        tsaps = list(st.get_tsaps())
        ctx.expect(
            tsaps == [order.index(y) + 1 for y in pool], "ASAP %d has %d of %d TSAPs" % (a, len(tsaps), n)
        )
        ctx.event("asked", n)
        ctx.see("many", n, x)
    ctx.floor(events__frame=500, events__asked=500, events__shown=900)
