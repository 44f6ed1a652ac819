"""What the Python contracts store: dictionaries, records and properties against plain models, over many transactions."""
from iconservice import Address, ArrayDB, IconScoreDatabase
from pyscore.bmc.link import BTPLinks
from pyscore.bmc.relay import BTPRelays
from pyscore.bmc.relayer import BTPRelayers
from pyscore.bmc.route import BTPRoutes
from pyscore.lib import BTPAddress
from pyscore.lib.icon import AddressDictDB, PropertiesDB, Serializable, remove_from_array_db
from pyscore.lib.icon.db import BytesDictDB, StringDictDB


def run(m):
    m.run("dictionaries", m.n(4000, 60000), dictionaries)
    m.run("properties", m.n(3000, 40000), properties)
    m.run("relays", m.n(1500, 20000), relays)
    m.run("links", m.n(1500, 20000), links)
    m.run("relayers", m.n(1500, 20000), relayers)
    m.run("routes", m.n(1500, 20000), routes)
    m.run("arrays", m.n(3000, 40000), arrays)


def attempt(f, *a):
    try:
        return f(*a), None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return None, e


class Blob(Serializable):
    def __init__(self, b=b""):
        self.b = b

    def to_bytes(self):
        return self.b

    def from_bytes(self, b):
        return Blob(b)

    def __eq__(self, o):
        return isinstance(o, Blob) and o.b == self.b


class Blobs(BytesDictDB):
    def bytes_to_object(self, bs):
        return Blob(bs)


class Texts(StringDictDB):
    def str_to_object(self, s):
        return BTPAddress.from_string(s)


def address(k):
    return Address(k.chance(50), bytes([k.pick(6)]) * 20)


def btp(k):
    return BTPAddress("btp", k.of("0x1.icon", "0x2.icon", "0x3.eth", "bsc"), k.of("cx00", "0x11", "x"))


KINDS = [(lambda db: AddressDictDB("d", db), address), (lambda db: Texts("d", db), btp), (lambda db: Blobs("d", db), lambda k: Blob(k.bytes(k.of(0, 1, 20))))]


def show(k, d, model, what):
    """Everything that can be seen of a dictionary."""
    got, e = attempt(lambda: ([str(x) for x in d], list(d.keys()), len(d)))
    k.check(e is None and got == (list(model), list(model), len(model)), "keys", "%r (%r) instead of %s after%s" % (got, e, list(model), k.input))
    for i, key in enumerate(model):
        got, e = attempt(lambda: (d[key], d.at(i), key in d))
        k.check(e is None and got == (model[key], model[key], True), "value", "%s is %r (%r) instead of %r after%s" % (key, got, e, model[key], k.input))
    got, e = attempt(lambda: d.at(len(model)))
    k.check(e is not None, "at", "%r at %d of %d" % (got, len(model), len(model)))
    got, e = attempt(d.to_dict)
    k.check(e is None and got == model, "to_dict", "%r (%r) instead of %r after%s" % (got, e, model, k.input))


def dictionaries(k):
    make, value = k.any(KINDS)
    db, model = IconScoreDatabase(), {}
    names = ["a", "bb", "btp://0x1.icon/cx00", "x y", "é", "0"]
    for tx in range(k.of(1, 3, 8)):
        d, saved, before = make(db), dict(db.store), dict(model)
        for _ in range(k.of(1, 2, 6)):
            key = k.any(names)
            x = k.pick(7)
            if x < 3:
                v = value(k)
                k.add(" set %s=%r" % (key, v))
                d[key] = v
                model[key] = v
            elif x < 5:
                k.add(" del " + key)
                if x == 3:
                    del d[key]
                elif k.chance(50):
                    d.remove(key)
                else:
                    d[key] = None
                model.pop(key, None)
            elif x == 5:
                got, e = attempt(lambda: (d[key], key in d))
                k.check(e is None and got == (model.get(key), key in model), "value", "%s is %r (%r) instead of %r after%s" % (key, got, e, model.get(key), k.input))
            elif k.chance(10):
                k.add(" clear")
                d.remove_all()
                model.clear()
            else:
                _, e = attempt(d.__setitem__, "a,b", value(k))
                k.check(e is not None, "comma", "a key with a comma was taken")
            if k.chance(50):
                show(k, d, model, "")
        show(k, d, model, "")
        if k.chance(15):
            # the transaction fails
            k.add(" failed;")
            db.store.clear()
            db.store.update(saved)
            model = before
        else:
            k.add(";")
        show(k, make(db), model, "new")
        k.count("transactions")
    k.seen(k.input)


class Props(PropertiesDB):
    def __init__(self, db):
        self.i, self.s, self.b, self.y, self.a, self.t, self.n = 7, "seven", False, b"", Address(True, bytes(20)), BTPAddress("btp", "0x1.icon", "cx"), None
        self.z = Blob
        super().__init__("props", db)

    @property
    def z(self):
        return super().get("z")

    @z.setter
    def z(self, v):
        pass


def properties(k):
    db = IconScoreDatabase()
    model = dict(i=7, s="seven", y=b"", a=Address(True, bytes(20)), t=BTPAddress("btp", "0x1.icon", "cx"), n=None)
    gen = dict(i=lambda: k.of(0, 1, -1, 127, 128, -128, -129, 255, 256, 2 ** 63, -2 ** 63, 2 ** 255, k.pick(10 ** 6)), s=lambda: k.of("", "x", "é漢", "0"),
               y=lambda: k.bytes(k.of(0, 1, 30)), a=lambda: address(k), t=lambda: btp(k), n=lambda: address(k))
    for tx in range(k.of(1, 3, 6)):
        p, saved, before = Props(db), dict(db.store), dict(model)
        for _ in range(k.of(1, 3, 6)):
            name = k.any(sorted(model))
            v = None if name == "n" and k.chance(40) else gen[name]()
            k.add(" %s=%r" % (name, v))
            setattr(p, name, v)
            model[name] = v
            got, e = attempt(getattr, p, name)
            k.check(e is None and got == v, "property", "%s is %r (%r) instead of %r after%s" % (name, got, e, v, k.input))
        if k.chance(15):
            k.add(" failed;")
            db.store.clear()
            db.store.update(saved)
            model = before
        else:
            k.add(";")
        q = Props(db)
        for name, v in model.items():
            got, e = attempt(getattr, q, name)
            k.check(e is None and got == v and type(got) is type(v), "property", "%s is %r (%r) instead of %r after%s" % (name, got, e, v, k.input))
        k.count("transactions")
    _, e = attempt(setattr, Props(db), "unknown", 1)
    k.check(e is not None, "property", "an unknown one was taken")
    k.seen(k.input)


def relays(k):
    """Records by address: counters start at zero, are kept, and are gone when it is removed."""
    db, model = IconScoreDatabase(), {}
    for tx in range(k.of(1, 3, 8)):
        d, saved, before = BTPRelays("r", db), dict(db.store), {a: dict(b) for a, b in model.items()}
        for _ in range(k.of(1, 2, 5)):
            a = address(k)
            x = k.pick(5)
            if x < 2:
                if str(a) not in model:
                    k.add(" add %s" % a)
                    d[a] = d.new_relay(a)
                    model[str(a)] = dict(addr=a, block_count=0, msg_count=0)
            elif x == 2:
                k.add(" remove %s" % a)
                d.remove(a)
                model.pop(str(a), None)
            elif str(a) in model:
                n = k.of("block_count", "msg_count")
                v = model[str(a)][n] + k.of(1, 3, 200)
                k.add(" %s %s=%d" % (a, n, v))
                setattr(d[a], n, v)
                model[str(a)][n] = v
            if k.chance(50):
                records(k, d, model)
        records(k, d, model)
        if k.chance(15):
            k.add(" failed;")
            db.store.clear()
            db.store.update(saved)
            model = before
        else:
            k.add(";")
        records(k, BTPRelays("r", db), model)
        k.count("transactions")
    k.seen(k.input)


def records(k, d, model):
    got, e = attempt(lambda: (list(d), len(d)))
    k.check(e is None and got == (list(model), len(model)), "records", "%r (%r) instead of %s after%s" % (got, e, list(model), k.input))
    for i, (key, want) in enumerate(model.items()):
        got, e = attempt(lambda: ({n: getattr(d[key], n) for n in want}, {n: getattr(d.at(i), n) for n in want}))
        k.check(e is None and got == (want, want), "record", "%s is %r (%r) instead of %r after%s" % (key, got, e, want, k.input))


def links(k):
    """Records that hold dictionaries and lists of their own."""
    db, model = IconScoreDatabase(), {}
    for tx in range(k.of(1, 3, 6)):
        d = BTPLinks("l", db)
        for _ in range(k.of(1, 3, 12)):
            l = btp(k)
            key = str(l)
            x = k.pick(8)
            if x < 2:
                if key not in model:
                    k.add(" add %s" % l)
                    d[l] = d.new_btp_link(l)
                    model[key] = (dict(addr=l, rx_seq=0, tx_seq=0, relay_idx=0, max_aggregation=10, delay_limit=3), {}, [])
            elif x == 2 and k.chance(60):
                k.add(" remove %s" % l)
                d.remove(l)
                model.pop(key, None)
            elif key in model:
                rec, rel, reach = model[key]
                if x < 5:
                    n = k.of("rx_seq", "tx_seq", "relay_idx", "max_aggregation")
                    v = k.of(1, 7, 300)
                    k.add(" %s %s=%d" % (l, n, v))
                    setattr(d[l], n, v)
                    rec[n] = v
                elif x < 7:
                    a = address(k)
                    rs = d[l].relays
                    if str(a) in rel:
                        k.add(" %s -%s" % (l, a))
                        rs.remove(a)
                        del rel[str(a)]
                    else:
                        k.add(" %s +%s" % (l, a))
                        rs[a] = rs.new_relay(a)
                        rel[str(a)] = dict(addr=a, block_count=0, msg_count=0)
                else:
                    for s in k.of("p", "qr", "rst"):
                        k.add(" %s reach %s" % (l, s))
                        d[l].reachable.put(s)
                        reach.append(s)
        k.add(";")
        for e in (d, BTPLinks("l", db)):
            records(k, e, {a: b[0] for a, b in model.items()})
            for key, (_, rel, reach) in model.items():
                got, err = attempt(lambda: e[key].relays)
                if got is None:
                    k.check(False, "record", "%s has no relays: %r after%s" % (key, err, k.input))
                    continue
                records(k, got, rel)
                k.check(list(e[key].reachable) == reach, "list", "%s instead of %s after%s" % (list(e[key].reachable), reach, k.input))
        k.count("transactions")
    k.seen(k.input)


def relayers(k):
    """Who owns which relay on which link."""
    db, model = IconScoreDatabase(), {}
    for tx in range(k.of(1, 3, 6)):
        d, saved, before = BTPRelayers("o", db), dict(db.store), {a: (dict(b), dict(c)) for a, (b, c) in model.items()}
        for _ in range(k.of(1, 3, 8)):
            o = address(k)
            key = str(o)
            x = k.pick(8)
            if x < 2:
                if key not in model:
                    k.add(" add %s" % o)
                    d[o] = d.new_relayer(o)
                    model[key] = (dict(addr=o, desc=""), {})
            elif x == 2:
                k.add(" remove %s" % o)
                d.remove(o)
                model.pop(key, None)
            elif key in model:
                rec, rel = model[key]
                l, a = btp(k), address(k)
                if x == 3:
                    rec["desc"] = d[o].desc = k.of("one", "", "two")
                elif x < 6:
                    k.add(" %s + %s %s" % (o, l, a))
                    _, e = attempt(d[o].add_relay, l, a)
                    k.check((e is None) == (str(l) not in rel), "relayer", "a relay for %s: %r with %s" % (l, e, list(rel)))
                    if str(l) not in rel:
                        rel[str(l)] = a
                else:
                    if str(l) in rel and k.chance(60):
                        a = rel[str(l)]
                    k.add(" %s - %s %s" % (o, l, a))
                    _, e = attempt(d[o].remove_relay, l, a)
                    k.check((e is None) == (rel.get(str(l)) == a), "relayer", "no relay %s for %s: %r with %s" % (a, l, e, rel))
                    if rel.get(str(l)) == a:
                        del rel[str(l)]
        if k.chance(15):
            k.add(" failed;")
            db.store.clear()
            db.store.update(saved)
            model = before
            d = BTPRelayers("o", db)
        else:
            k.add(";")
        for e in (d, BTPRelayers("o", db)):
            records(k, e, {a: b[0] for a, b in model.items()})
            for key, (_, rel) in model.items():
                got, err = attempt(lambda: e[key].relays.to_dict())
                k.check(err is None and got == rel, "relayer", "the relays of %s are %r (%r) instead of %r after%s" % (key, got, err, rel, k.input))
        k.count("transactions")
    k.seen(k.input)


def routes(k):
    """A network is reached by its own entry, or by that of an address in it."""
    db, model = IconScoreDatabase(), {}
    d = BTPRoutes("r", db)
    for _ in range(k.of(1, 3, 8)):
        a, v = btp(k), btp(k)
        if k.chance(75):
            k.add(" %s via %s" % (a, v))
            d[a] = v
            model[str(a)] = v
        else:
            k.add(" del %s" % a)
            d.remove(a)
            model.pop(str(a), None)
        if k.chance(30):
            d = BTPRoutes("r", db)
            k.add(";")
    for net in ("0x1.icon", "0x2.icon", "0x3.eth", "bsc", "none"):
        want = next((v for a, v in model.items() if BTPAddress.from_string(a).net == net), None)
        got, e = attempt(d.resolve, net)
        k.check(e is None and got == want, "route", "%s goes to %r (%r) instead of %r after%s" % (net, got, e, want, k.input))
    k.seen(k.input)


def arrays(k):
    db = IconScoreDatabase()
    a, model = ArrayDB("a", db, str), []
    for _ in range(k.of(1, 5, 15)):
        v = k.of("a", "b", "c", "d", "e")
        if k.chance(60) and v not in model:
            a.put(v)
            model.append(v)
        else:
            was = list(a)
            i = remove_from_array_db(a, v)
            k.check(i == (was.index(v) if v in was else -1), "array", "%s was removed at %d of %s" % (v, i, was))
            if v in model:
                model.remove(v)
        k.check(sorted(a) == sorted(model), "array", "%s instead of %s" % (list(a), model))
    k.seen(len(model), tuple(a))
