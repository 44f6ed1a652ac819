"""Tokens of the Python token service, on two chains, with messages in flight: nothing is lost, made or moved twice."""
import json

from iconservice import Address, IconScoreDatabase, Msg, Tx
from pyscore.token.sample.irc2.irc2_token import IRC2Token
from pyscore.token.token_bsh import TokenBSH

NETS = ["0x1.icon", "0x2.icon"]
NAMES = ["gold", "iron"]
BMC, BSH = Address(True, b"\x01" * 20), Address(True, b"\x02" * 20)
TOKENS = {n: Address(True, bytes([16 + i]) * 20) for i, n in enumerate(NAMES)}
OWNER = Address(False, b"\x09" * 20)
USERS = [Address(False, bytes([32 + i]) * 20) for i in range(3)]


def run(m):
    m.run("transfers", m.n(4000, 60000), lambda k: World(k).play())


class Chain:
    """The contracts of a chain; every transaction happens as a whole or not at all."""

    def __init__(self, world, net):
        self.world, self.net, self.events = world, net, []
        self.dbs = {a: IconScoreDatabase() for a in [BSH] + list(TOKENS.values())}
        self.names = {}      # registered
        self.out = {}        # user -> name -> tokens outside
        self.held = {n: 0 for n in NAMES}  # what the service really has
        self.usable, self.locked, self.pending, self.sn = {}, {}, {}, 0
        self.tx(OWNER, BSH, "on_install", BMC)
        for n, a in TOKENS.items():
            self.tx(OWNER, a, "on_install", n, n[:2], 0, 3000, OWNER)
            for u in USERS:
                self.tx(OWNER, a, "transfer", u, 1000)
                self.out[u, n] = 1000

    def inner(self, sender, at, name, *a):
        cls = TokenBSH if at == BSH else IRC2Token
        c = cls.__new__(cls)
        c.address, c.owner, c.msg, c.tx, c.block_height = at, OWNER, Msg(sender), Tx(OWNER), 1
        c.emit = lambda n, v: self.events.append((n,) + tuple(v))
        c.create_interface_score = lambda to, i: Caller(self, at, to)
        cls.__init__(c, self.dbs[at])
        return getattr(c, name)(*a)

    def tx(self, sender, at, name, *a):
        saved, sent = {x: dict(d.store) for x, d in self.dbs.items()}, list(self.world.queue)
        self.events = []
        try:
            return self.inner(sender, at, name, *a), None
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            for x, d in self.dbs.items():
                d.store.clear()
                d.store.update(saved[x])
            self.world.queue[:] = sent
            self.events = []
            return None, e

    def add(self, user, name, usable, locked):
        self.usable[user, name] = self.usable.get((user, name), 0) + usable
        self.locked[user, name] = self.locked.get((user, name), 0) + locked


class Caller:
    def __init__(self, chain, frm, to):
        self.chain, self.frm, self.to = chain, frm, to

    def __getattr__(self, name):
        def f(*a):
            if self.to == BMC:
                to, svc, sn, data = a
                if to not in NETS:
                    raise Exception("unreachable")
                self.chain.world.queue.append((self.chain.net, to, svc, sn, data))
                return None
            return self.chain.inner(self.frm, self.to, name, *a)
        return f


class World:
    def __init__(self, k):
        self.k, self.queue = k, []  # messages on their way
        self.chains = {n: Chain(self, n) for n in NETS}
        self.supply = {n: 0 for n in NAMES}  # what was put in and not taken out

    def bad(self, ok, sig, detail):
        self.k.check(ok, sig, "%s after%s" % (detail, self.k.input[-1500:]))

    def play(self):
        k = self.k
        for n in NAMES:
            for c in self.chains.values():
                if k.chance(85):
                    _, e = c.tx(OWNER, BSH, "register", n, TOKENS[n])
                    self.bad(e is None, "register", "%r" % e)
                    c.names[n] = TOKENS[n]
        for _ in range(k.of(5, 15, 40)):
            x = k.pick(100)
            c, u, n, v = self.chains[k.any(NETS)], k.any(USERS), k.any(NAMES), k.of(0, 1, 10, 300, 1000, 2000)
            if x < 25:
                self.deposit(c, u, n, v)
            elif x < 35:
                self.reclaim(c, u, n, v)
            elif x < 65:
                self.transfer(c, u, n, v)
            elif x < 92:
                self.deliver()
            elif x < 97:
                self.strange(c, u, n)
            else:
                _, e = c.tx(u, BSH, "register", n, TOKENS[n])
                self.bad(e is not None, "register", "somebody registered a token")
                _, e = c.tx(u, BSH, "unregister", n)
                self.bad(e is not None, "register", "somebody unregistered a token")
                _, e = c.tx(OWNER, BSH, "register", n, TOKENS[n])
                self.bad((e is None) == (n not in c.names), "register", "%s again: %r" % (n, e))
                c.names[n] = TOKENS[n]
            self.look()
        while self.queue:
            self.deliver()
        self.look()
        for c in self.chains.values():
            self.bad(not c.pending and not any(c.locked.values()), "harness", "something is still pending")
        if k.chance(20):
            c, n = self.chains[k.any(NETS)], k.any(NAMES)
            _, e = c.tx(OWNER, BSH, "unregister", n)
            self.bad((e is None) == (n in c.names), "register", "unregistering %s: %r" % (n, e))
            c.names.pop(n, None)
            got, _ = c.tx(USERS[0], BSH, "tokenNames")
            self.bad(got == c.names, "register", "%s instead of %s" % (got, c.names))
            _, e = c.tx(USERS[0], TOKENS[n], "transfer", BSH, 0)
            self.bad(e is not None, "register", "a token that is not registered any more is taken")
        k.seen(k.input)

    def deposit(self, c, u, n, v):
        self.k.add(" %s %s puts %d %s" % (c.net[:3], str(u)[-2:], v, n))
        _, e = c.tx(u, TOKENS[n], "transfer", BSH, v)
        ok = n in c.names and c.out[u, n] >= v
        self.bad((e is None) == ok, "deposit", "%d of %d %s: %r" % (v, c.out[u, n], n, e))
        if ok:
            c.out[u, n] -= v
            c.held[n] += v
            c.add(u, n, v, 0)
            self.supply[n] += v

    def reclaim(self, c, u, n, v):
        if self.k.chance(10):
            v = -v - 1
        self.k.add(" %s %s takes %d %s" % (c.net[:3], str(u)[-2:], v, n))
        have = c.usable.get((u, n), 0)
        ok = n in c.names and 0 <= v <= have and v <= c.held[n]
        _, e = c.tx(u, BSH, "reclaim", n, v)
        self.bad((e is None) == ok, "reclaim", "%d of %d %s, the service has %d: %r" % (v, have, n, c.held[n], e))
        if ok:
            c.add(u, n, -v, 0)
            c.held[n] -= v
            c.out[u, n] += v
            self.supply[n] -= v

    def transfer(self, c, u, n, v):
        k = self.k
        if k.chance(5):
            v = -v - 1
        net = [x for x in NETS if x != c.net][0]
        r = str(k.any(USERS))
        if k.chance(10):
            r = k.of("nobody", "hx00", "cx" + "0" * 40)
        to = "btp://%s/%s" % (net, r)
        if k.chance(7):
            to = k.of("btp://0x9.none/" + r, "btp://%s" % net, "")
        k.add(" %s %s sends %d %s to %s" % (c.net[:3], str(u)[-2:], v, n, to[-20:]))
        have = c.usable.get((u, n), 0)
        ok = n in c.names and 0 <= v <= have and to == "btp://%s/%s" % (net, r)
        before = len(self.queue)
        _, e = c.tx(u, BSH, "transfer", n, to, v)
        self.bad((e is None) == ok, "transfer", "%d of %d %s to %s: %r" % (v, have, n, to, e))
        self.bad(len(self.queue) == before + ok, "transfer", "%d messages" % (len(self.queue) - before))
        if ok:
            c.sn += 1
            frm, dst, svc, sn, data = self.queue[-1]
            self.bad((dst, svc, sn) == (net, "token", c.sn), "transfer", "message %s with number %d instead of %d" % (self.queue[-1], sn, c.sn))
            c.add(u, n, -v, v)
            c.pending[c.sn] = (u, n, v, r)
            self.bad(("TransferStart", u, n, c.sn, v, r) in c.events, "transfer", "events %s" % c.events)

    def deliver(self):
        """One of the messages on their way arrives."""
        k = self.k
        if not self.queue:
            return
        frm, to, svc, sn, data = m = self.queue.pop(k.pick(len(self.queue)))
        c, s, before = self.chains[to], self.chains[frm], len(self.queue)
        if sn < 0:
            self.finish(c, -sn, *c.tx(BMC, BSH, "handleBTPError", "btp://%s/cx" % frm, svc, -sn, 40, data.decode()), refund=True)
            return
        req = json.loads(data)
        if req["type"] == "req_token_transfer":
            u, n, v, r = s.pending[sn]
            k.add(" %s arrives" % sn)
            self.bad((req["from"], req["to"], req["args"]["name"], int(req["args"]["value"], 16)) == (str(u), r, n, v), "request", "%s instead of %s" % (req, (u, r, n, v)))
            if k.chance(10):
                # it cannot be delivered
                self.queue.append((to, frm, svc, -sn, b"unreachable"))
                return
            if k.chance(5):
                # to a service of another version
                self.queue.append((to, frm, svc, sn, json.dumps({"type": "res_unknown_type"}).encode()))
                return
            _, e = c.tx(BMC, BSH, "handleBTPMessage", frm, svc, sn, data)
            good = len(r) == 42
            self.bad((e is None) == good, "request", "for %s: %r" % (r, e))
            if not good:
                self.queue.append((to, frm, svc, -sn, b"failed"))
                return
            self.bad(len(self.queue) == before + 1 and self.queue[-1][:4] == (to, frm, "token", sn), "request", "answered with %s" % (self.queue[before:],))
            res = json.loads(self.queue[-1][4])
            self.bad(res["type"] == "res_token_transfer" and (res["code"] == 0) == (n in c.names), "request", "answered with %s" % res)
            if n in c.names:
                c.add(Address.from_string(r), n, v, 0)
                c.paid = getattr(c, "paid", set()) | {(frm, sn)}
        else:
            self.finish(c, sn, *c.tx(BMC, BSH, "handleBTPMessage", frm, svc, sn, data), refund=req.get("code") != 0)
            self.bad(len(self.queue) == before, "answer", "the answer to %d was answered" % sn)
            if k.chance(10):
                # a second time
                _, e = c.tx(BMC, BSH, "handleBTPMessage", frm, svc, sn, data)
                self.bad(e is not None, "answer", "an answer was taken twice")

    def finish(self, c, sn, _, e, refund):
        self.k.add(" %s %s" % (sn, "failed" if refund else "done"))
        self.bad(e is None, "answer", "to %d: %r" % (sn, e))
        u, n, v, r = c.pending.pop(sn)
        c.add(u, n, v if refund else 0, -v)
        self.k.count("refunded" if refund else "done")

    def strange(self, c, u, n):
        """What must not change anything."""
        k = self.k
        x = k.pick(6)
        req = {"type": "req_token_transfer", "from": str(u), "to": str(u), "args": {"name": n, "value": "0x64"}}
        other = [y for y in NETS if y != c.net][0]
        sn = k.of(1, c.sn, c.sn + 5)
        k.add(" strange %d" % x)
        before = list(self.queue)
        if x == 0:
            _, e = c.tx(u, BSH, "handleBTPMessage", other, "token", 3, json.dumps(req).encode())
        elif x == 1:
            _, e = c.tx(u, BSH, "handleBTPMessage", other, "token", sn, json.dumps({"type": "res_token_transfer", "code": -1}).encode())
        elif x == 2:
            _, e = c.tx(u, BSH, "handleBTPError", other, "token", sn, 1, "x")
        elif x == 3:
            _, e = c.tx(u, BSH, "tokenFallback", u, 100, b"")
        elif x == 4:
            req["args"]["value"] = "-0x64"
            _, e = c.tx(BMC, BSH, "handleBTPMessage", other, "token", 3, json.dumps(req).encode())
        else:
            sn = c.sn + 5
            if k.chance(40):
                _, e = c.tx(BMC, BSH, "handleBTPError", other, "token", sn, 1, "x")
            else:
                _, e = c.tx(BMC, BSH, "handleBTPMessage", other, "token", sn, json.dumps({"type": k.of("res_token_transfer", "res_unknown_type"), "code": 0}).encode())
        self.bad(e is not None, "strange", "number %d was accepted" % x)
        self.bad(self.queue == before, "strange", "number %d sent a message" % x)
        k.count("refused")

    def look(self):
        total = {n: 0 for n in NAMES}
        for c in self.chains.values():
            for u in USERS + [Address(True, bytes(20))]:
                got, e = c.tx(u, BSH, "balanceOf", u)
                want = {n: {"usable": c.usable.get((u, n), 0), "locked": c.locked.get((u, n), 0)} for n in NAMES if n in c.names and (c.usable.get((u, n), 0) or c.locked.get((u, n), 0))}
                self.bad(e is None and got == want, "balance", "%s has %s (%r) instead of %s" % (u, got, e, want))
                for n in NAMES:
                    total[n] += got.get(n, {}).get("usable", 0)
            for n in NAMES:
                got, e = c.tx(OWNER, TOKENS[n], "balanceOf", BSH)
                self.bad(got == c.held[n], "balance", "the service holds %s %s instead of %d" % (got, n, c.held[n]))
            for sn in range(1, c.sn + 2):
                got, e = c.tx(OWNER, BSH, "isPending", sn)
                self.bad(e is None and got == (sn in c.pending), "pending", "%d is %s (%r)" % (sn, got, e))
            for sn, (u, n, v, r) in c.pending.items():
                other = [x for x in self.chains.values() if x is not c][0]
                if (c.net, sn) not in getattr(other, "paid", ()):
                    total[n] += v
        self.bad(total == self.supply, "conservation", "%s instead of %s" % (total, self.supply))
        self.k.count("looks")
